"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    d = {'id': id, 'title': title, 'statement': ' '.join(statement.split()),
         'quantifier': {'over': list(over), 'text': ' '.join(text.split())},
         'why_tests_cant': ' '.join(why.split()),
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if observe:
        d['anchors']['observe_at'] = list(observe)
    if state:
        d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    P.append(d)


EM = 'creole/emitter/creol2html_emitter.py'
PA = 'creole/parser/creol2html_parser.py'
RU = 'creole/parser/creol2html_rules.py'
HP = 'creole/parser/html_parser.py'
BE = 'creole/shared/base_emitter.py'
E2C = 'creole/emitter/html2creole_emitter.py'
E2R = 'creole/emitter/html2rest_emitter.py'
E2T = 'creole/emitter/html2textile_emitter.py'
E2M = 'creole/emitter/html2markdown_emitter.py'
UT = 'creole/shared/utils.py'

p('C01', 'creole2html never lets wiki text inject HTML',
  '''Whatever the Creole text is, the HTML made from it without user macros contains only the tags and attributes
  the converter itself emits (p, br, hr, pre, code, h1.., a, img, lists, tables and the typeface tags); every "<",
  ">" and "&" that came from the text appears as an entity, and every quote inside an attribute value as a
  complete entity, so no text can open a tag, leave an attribute or add one. This holds for text, headings, links,
  images, nowiki areas, table cells, list items and the table of contents alike.''',
  ['inputs', 'configurations'], 'every Creole text, both line break modes, strict or not, with or without <<toc>>',
  '''The tests hold a handful of escaping examples; an unescaped path shows up only for a particular construct combined
  with a particular special character.''',
  [EM, PA], [('html_escape/attr_escape on everything emitted from the text', EM), ('image_emit, link_emit, header_emit build attributes', EM),
             ('TableOfContent.nested_headlines2html', EM)], ['return value of creole2html'])

p('C02', 'creole2html answers every text with properly nested HTML',
  '''For every text and every combination of the conversion options, the Creole to HTML conversion terminates,
  raises nothing and returns a string whose tags are balanced and properly nested: every opened element is closed
  in reverse order, list items are inside lists, cells inside rows inside tables. This includes texts with
  unterminated or overlapping markup.''',
  ['inputs', 'configurations'], 'every Creole text; blog_line_breaks, strict, verbose, presence of macros',
  'Tests convert well-formed examples; unbalanced markup combinations are unbounded in number.',
  [PA, RU, EM], [('block and inline regular expressions cover every text', RU), ('_upto/_inline_mark keep the node stack consistent', PA),
                 ('tree emission opens and closes every element', EM)], ['return value of creole2html'])

p('C03', 'creole2html loses and invents no text',
  '''Text made of characters that are no Creole markup comes out as exactly the same character data (with <, > and &
  as entities), in the same order, whether it stands in a paragraph, a heading, a list item, a table cell, a link
  description or inside a typeface. Nothing is dropped, doubled, reordered or case-changed for any character of
  Unicode, and lone markup characters that do not form a construct are kept as text.''',
  ['inputs'], 'every text over the non-markup characters of Unicode, in every position a text can have',
  'Tests use ASCII words and a few umlauts; loss typically needs a particular character (form feed, NBSP, a lone ~) in a particular place.',
  [PA, RU, EM], [('_char_repl/_escape_repl accumulate text nodes', PA), ('text_emit', EM), ('char rule as the last alternative', RU)],
  ['return value of creole2html'])

p('C04', 'Inline Creole markup maps to its element with exactly its extent',
  '''Each inline marker pair (** // ## ^^ ,, __ -- ~~) around non-markup text yields exactly the element documented for
  it (strong, i, tt, sup, sub, u, small, del) around exactly the enclosed text, pairs close at the first matching
  marker, pairs of different kinds nest to any depth, and an unpaired marker, or a pair with nothing between, is literal text. "//" directly after
  ":" never starts or ends emphasis, and typefaces work the same in paragraphs, list items, table cells and links
  that allow them.''',
  ['inputs'], 'every nesting of the eight markers around every text',
  'Only a few combinations of the 8 markers and almost no unpaired or adjacent ones are tested.',
  [RU, PA, EM], [('InlineRules patterns', RU), ('_inline_mark', PA), ('_typeface', EM)], ['return value of creole2html'])

p('C05', 'Nowiki areas and tilde escapes are verbatim',
  '''The content of {{{...}}} (block and inline) reaches the HTML unchanged apart from entity escaping, whatever markup it
  contains, as pre for the block form and code for the inline form; in a block, an escaped "~}}}" line loses
  exactly its tilde. Elsewhere a tilde before a non-space character yields that character literally without any
  markup meaning, a tilde before whitespace is kept, and an escaped URL is shown as plain text.''',
  ['inputs'], 'every content of nowiki areas and every character after a tilde',
  'Nowiki content is arbitrary text; tests show a few samples.',
  [RU, PA, EM], [('pre_block, pre_inline, escape, pre_escape rules', RU), ('_pre_block_repl remove_tilde', PA), ('pre_block_emit, pre_inline_emit', EM)],
  ['return value of creole2html'])

p('C06', 'Links, images and bare URLs keep target, text and size exactly',
  '''[[target]] and [[target|text]] give a link whose href is exactly the trimmed target and whose content is the text
  (or the target), {{target|title}} gives an image with exactly that src, title and alt (the target when there is no
  title), and a bare URL of a known scheme standing at a word start becomes a link to exactly itself. In non-strict
  mode an image text ending in |WxH gives integer width and height in that order, any other image text or strict
  mode gives none. [[]] and {{}}, or one bracket pair alone, have no target and are text.''',
  ['inputs', 'configurations'], 'every target, text and size; strict on and off; all known schemes',
  'Targets and titles are free text; tests check a few dozen.',
  [RU, PA, EM], [('link, image, url rules', RU), ('_link_repl, _image_repl, _url_repl', PA), ('link_emit, image_emit', EM)],
  ['return value of creole2html'])

p('C07', 'Block structure: headings, rules, paragraphs and line breaks',
  '''A line of n leading "=" is a heading of level n with its trimmed text (trailing "=" removed) and no inline
  markup, a line of exactly four dashes is a rule, and other consecutive lines form one paragraph ended by a blank
  line. Inside a paragraph each newline is one <br /> in blog mode and one space in wiki mode, with no trailing
  break, and the conversion of complete blocks separated by blank lines is the concatenation of their own conversions.''',
  ['inputs', 'configurations'], 'every text of the lines, every number of lines, both line break modes',
  'Combination of adjacent block kinds and blank-line placement is quadratic and barely sampled.',
  [RU, PA, EM], [('BlockRules', RU), ('_text_repl, _head_repl, _line_repl, cleanup_break', PA)], ['return value of creole2html'])

p('C08', 'Creole lists nest by bullet count and kind',
  '''Consecutive lines starting with k bullets become list items at depth k: the item texts are all there once, in
  order, in a ul for "*" and an ol for "#" according to the last bullet, deeper items sit inside the preceding item,
  and going back up continues the enclosing list of that level when it is of the same kind and starts a new one when
  it is not.''',
  ['inputs'], 'every sequence of item lines with every depth profile and text',
  'The number of depth/kind profiles is exponential in the number of lines; tests contain about ten.',
  [RU, PA, EM], [('list and item rules', RU), ('_item_repl walks up to the list of the same level', PA), ('_list_emit', EM)],
  ['return value of creole2html'])

p('C09', 'Creole tables: every cell once, in its row, th only after |=',
  '''Each line starting with "|" is a row of one table made of consecutive rows, each cell between bars yields exactly one
  td (or th when the cell starts with "=") holding its trimmed content, in order, and a closing bar adds no cell.
  Links, images, macros and nowiki inside a td cell may contain "|" without splitting the cell.''',
  ['inputs'], 'every number of rows and columns, every cell text',
  'Cells are free text with embedded bars in constructs; tests contain a few fixed tables.',
  [RU, PA, EM], [('table and cell rules', RU), ('_table_repl', PA), ('table_*_emit', EM)], ['return value of creole2html'])

p('C10', 'Conversions are pure and independent of line ending style',
  '''Converting a text that uses \\r\\n or \\r line ends gives the same HTML as the \\n version. A conversion depends on its
  arguments only: repeating it, or running any other conversions before it in the process, gives the same result,
  and neither the macro table nor any other argument is modified.''',
  ['inputs', 'histories', 'configurations'], 'every text with any mix of line ends, every pair of successive conversions',
  'Tests convert each text once in a fresh state; leaks need a second conversion.',
  [PA, EM, HP, BE], [('line end normalisation in parse()', PA), ('HtmlEmitter.__init__ macro table handling', EM)],
  ['return values of creole2html and the html2* functions', 'the macros dict passed in'])

p('C11', 'Macros get exactly their arguments and failures stay contained',
  '''A macro tag or block in a text calls exactly the registered macro of that name once, with its parsed arguments
  and the enclosed text without blanks around it (None for a tag without content), and its string result is placed into the output at that
  position. A missing macro, bad arguments, a raising macro or a non-string result never breaks the rest of the
  document: with verbose 0 nothing is shown, from verbose 1 (the default) one [Error: ...] text naming the macro is shown in its place,
  details go to stderr only above 1, and only verbose above 2 re-raises a TypeError.''',
  ['inputs', 'configurations'], 'every argument text and enclosed text, every failure mode, every verbosity, dict and object macro tables',
  'The failure modes are tested one by one with fixed arguments.',
  [RU, PA, EM, UT], [('macro_block/macro_inline/macro_tag rules', RU), ('_add_macro', PA), ('macro_emit, error', EM), ('string2dict', UT)],
  ['return value of creole2html', 'arguments the macro receives', 'stderr argument'])

p('C12', 'Macro argument strings parse to exactly the written values',
  '''key="value" pairs separated by blanks parse to a dict with exactly those keys and values, where True, False, None and
  integers become those Python values, everything else stays the exact string, and anything that is no sequence of
  such pairs raises ValueError. Writing a dict of string and number values and parsing it back gives the same dict.''',
  ['inputs'], 'every key and value text', 'Quoting corner cases are unbounded; tests have about a dozen.',
  [UT], [('string2dict, dict2string', UT)], ['string2dict, dict2string'])

p('C13', 'The table of contents lists exactly the headings, properly linked',
  '''With <<toc>> in a text, the list of contents contains every heading not deeper than the depth argument exactly
  once, in document order, nested by level, each linking to the anchor put around that heading, and it replaces the
  first <<toc>> only. Without <<toc>> headings carry no anchor, and a second <<toc>> is shown as text.''',
  ['inputs', 'configurations'], 'every sequence of heading levels and heading texts, every depth and position of the toc tag',
  'Level sequences are exponential, heading texts free; tests have six documents.',
  [EM], [('TableOfContent', EM), ('header_emit', EM)], ['return value of creole2html'])

p('C14', 'html2creole/rest/textile/markdown keep all text, with entities decoded',
  '''For every HTML made of ordinary text inside the supported block and inline elements, each of the four converters
  returns a string (no exception) containing every word of the text exactly once and in order, with named, decimal and
  hexadecimal character references replaced by their characters; words of different blocks, list items, cells or lines (br)
  do not become one. Neither unclosed or stray tags nor a document that
  ends in the middle of a reference or tag make the text around them disappear.''',
  ['inputs'], 'every text, every nesting of supported elements, every character reference',
  'The cross-compare tests hold fixed pairs of well-formed documents.',
  [HP, BE, E2C, E2R, E2T, E2M, 'creole/html_tools/deentity.py', 'creole/html_tools/strip_html.py'],
  [('HtmlParser.feed/handle_*', HP), ('data_emit, entityref_emit, charref_emit', BE)], ['return values of html2creole, html2rest, html2textile, html2markdown'])

p('C15', 'HTML to Creole maps each element to its markup and round trips',
  '''html2creole writes each supported element as its Creole markup (headings by level, typefaces, links, images with
  src, title and width x height, rules, line breaks, lists, nowiki areas) with exactly the element's text, target and
  sizes; images with data: sources are dropped and strict mode omits sizes. Converting Creole text made of plain
  words in these constructs to HTML and back gives the same Creole text.''',
  ['inputs', 'configurations'], 'every text, target, size, heading level, list profile; strict on and off',
  'Tests hold fixed pairs; the round trip is never stated over texts.',
  [E2C, BE, HP], [('CreoleEmitter.*_emit', E2C), ('BaseEmitter._list_emit, li_emit', BE)], ['html2creole', 'creole2html'])

p('C16', 'HTML tables come out complete and aligned in all four markups',
  '''For a table of any shape whose texts hold no characters of the markup itself, every cell text appears exactly once in its row and column in the Creole, ReST, Textile and
  Markdown output, header cells are marked as that markup requires, and no cell is lost when rows have different lengths.
  Creole, ReST and Markdown columns are padded to one width, the ReST grid lines match those widths, and a header
  separator appears after the first row only if there are header cells.''',
  ['inputs'], 'every table shape within the bound and every cell text',
  'A few regular tables are tested; ragged shapes and width combinations are not.',
  ['creole/shared/markup_table.py', BE, E2R, E2M, E2T], [('MarkupTable', 'creole/shared/markup_table.py'), ('table/tr/th/td_emit', BE)],
  ['html2creole, html2rest, html2textile, html2markdown'])

p('C17', 'html2rest emits structurally valid reStructuredText',
  '''Headings are over/underlined as their level requires with adornment lines that are not shorter than the title, list items stand at
  the indentation of their nesting level surrounded by blank lines, preformatted blocks are indented literal blocks,
  links and images refer to a target that is defined exactly once in the output, and reusing a link text for another URL
  raises an error instead of producing an ambiguous document.''',
  ['inputs'], 'every heading text and level, list profile, and sequence of links and images',
  'Fixed documents only; substitution bookkeeping is history dependent within a document.',
  [E2R, 'creole/shared/markup_table.py'], [('headline_emit, li_emit, _list_emit, a_emit, img_emit, _get_block_data', E2R)], ['html2rest'])

p('C18', 'html2textile and html2markdown map each element to its markup',
  '''Every supported element yields exactly the Textile or Markdown construct documented for it around exactly its content:
  headings by level, typefaces, rules, links with their URL, images with their source and text, nested lists with
  the right marker and depth, and code. For Markdown, blanks and other unsafe characters of a URL's path are
  percent-encoded and its query and fragment stay as they are.''',
  ['inputs'], 'every element, text, URL and list profile', 'Only fixed pairs are tested.',
  [E2T, E2M, BE], [('TextileEmitter', E2T), ('MarkdownEmitter, quote_link', E2M)], ['html2textile, html2markdown'])

p('C19', 'Unknown HTML tags are handled exactly as the chosen policy says',
  '''For an element without a counterpart in the target markup the chosen handler decides alone: transparent keeps
  exactly the content, escape shows the tag and its attributes as entity-escaped text around the content, the
  html-macro and pre handlers wrap each tag in their mask, and the raising handler raises NotImplementedError.
  Known elements are never affected and the content of the unknown element is converted as usual in every case.''',
  ['inputs', 'configurations'], 'every unknown tag name, attribute value and content, all five handlers',
  'Each handler has one or two examples.',
  ['creole/shared/unknown_tags.py', BE, 'creole/shared/document_tree.py', UT],
  [('unknown_emit callables', 'creole/shared/unknown_tags.py'), ('emit_node dispatch', BE)], ['html2* with unknown_emit'])

p('C20', 'strip_html changes whitespace only, and never inside pre',
  '''Removing superfluous whitespace from HTML deletes or collapses only whitespace around tags and line ends: all
  other characters stay in place and order, a blank between two words never disappears and none appears inside a
  word, and cleaning an already cleaned text that has no blanks next to inline tags changes nothing. clean_whitespace changes only the white space at the two ends of a text: one blank at the start if there was one, one line end or else one blank at the end. The content of pre areas
  reaches the html2* output verbatim, line breaks and indentation included.''',
  ['inputs'], 'every HTML text within the bound', 'A dozen doctest strings against an unbounded input space.',
  ['creole/html_tools/strip_html.py', 'creole/html_tools/text_tools.py', HP], [('strip_html', 'creole/html_tools/strip_html.py'), ('pre cut-out in HtmlParser.feed', HP)],
  ['strip_html', 'html2*'])

p('C21', 'Character references decode to exactly their character',
  '''Every decimal, hexadecimal (either case of the digits) and known named reference in a text is replaced by exactly the
  character it denotes (nbsp by a blank), everything that is no complete reference is left as it is, and decoding is
  one pass: text produced by a reference is not decoded again. A reference to no valid character or an unknown name
  does not raise and stays readable.''',
  ['inputs'], 'every code point, every known name, every surrounding text', 'Three references are tested.',
  ['creole/html_tools/deentity.py', BE], [('Deentity.replace_*', 'creole/html_tools/deentity.py'), ('entityref_emit, charref_emit', BE)],
  ['Deentity.replace_all', 'html2*'])

p('C22', 'The command line tools convert whole files and never destroy data on failure',
  '''Each command reads the whole source file in the given encoding (UTF-8 if none is given), applies exactly its own conversion
  and writes exactly the result to the destination in that encoding; no other file changes. If opening, reading, decoding,
  converting, encoding or opening the destination fails, the error is reported and every file keeps its content, also when
  source and destination are the same path.''',
  ['inputs', 'fault_sequences', 'configurations'], 'every content and encoding, a failure at every step',
  'Only successful runs with one file are tested.',
  ['creole/cmdline.py'], [('CreoleCLI.convert', 'creole/cmdline.py')], ['file content', 'exceptions'])

p('C23', 'README generation writes on every change and the check agrees with it',
  '''Updating README.rst or README.md writes the conversion of README.creole and a note with its name and modification time
  whenever the existing file is not that conversion followed by such a note, and leaves it byte for byte alone otherwise. Right
  after an update the up-to-date check passes; it raises AssertionError whenever the file is anything else, and changes no README.
  All three files are UTF-8 whatever the locale is. If reading, converting (a tag the markup does not have included) or rendering fails,
  the error is reported and the old file stays. get_long_description() raises only if asked for, else it gives the source with the error.''',
  ['inputs', 'histories', 'fault_sequences'], 'every old and new generated text within the bound',
  'The tests only run it on the README of the repository itself, already up to date.',
  ['creole/setup_utils.py'], [('update_rst_readme, update_markdown_readme, assert_*_readme', 'creole/setup_utils.py'), ('get_long_description', 'creole/setup_utils.py')], ['file content', 'AssertionError'])

p('C24', 'ReST rendering runs docutils with file access and raw HTML disabled',
  '''Every rendering of ReStructuredText through this package, with any caller supplied settings overrides that do not name them,
  runs docutils with file insertion and raw HTML disabled; the PyPI variant halts at the documented level and rejects any document with a
  link whose URL scheme is outside its whitelist (or missing), upper or lower case alike, and accepts every other link.''',
  ['inputs', 'configurations'], 'every settings override and every URL scheme text',
  'Tests render a few documents with default settings.',
  ['creole/rest_tools/clean_writer.py', 'creole/rest_tools/pypi_rest2html.py'],
  [('rest2html settings', 'creole/rest_tools/clean_writer.py'), ('pypi_rest2html settings and ALLOWED_SCHEMES', 'creole/rest_tools/pypi_rest2html.py')],
  ['settings handed to docutils', 'exceptions'])

p('C25', 'The example macros pass on, escape and highlight their text completely',
  '''The html macro returns its text unchanged, the pre macro returns it entity-escaped inside one pre element, and the code macro
  hands exactly its text to the highlighter with the lexer named by the extension (with or without a leading dot or file name, blanks ignored), guessing the
  lexer from the text when there is none of that name, and shows the highlighted text with a break at every line end. If highlighting
  fails or is not available the escaped text is shown in pre, so it never injects HTML.''',
  ['inputs', 'fault_sequences'], 'every text and extension; a highlighter that is missing or fails at any step',
  'Tests run one or two Python snippets with a working pygments.',
  ['creole/shared/example_macros.py', 'creole/shared/utils.py'],
  [('html, pre, code', 'creole/shared/example_macros.py'), ('get_pygments_lexer', 'creole/shared/utils.py')],
  ['return values of the macros', 'arguments handed to pygments'])

p('C26', 'rest2html writes clean, well nested HTML with all of the text',
  '''For a document of sections, paragraphs, bullet, numbered, definition and field lists, block quotes, literal and doctest blocks,
  line blocks, tables, images, figures, notes, topics, sidebars, containers and the inline elements, rest2html writes properly nested tags
  without div, class and id, with every text and every attribute value (targets, sources, alternative texts, sizes, alignment) escaped and in
  the order of the document; titles get h1 to h6 for their level, every table exactly its own columns, and texts of different blocks are
  never run together. Only the frame of a block quote, note, container, line block, topic or sidebar is left out, not its content.''',
  ['inputs', 'histories'], 'every pair of elements in every place, with every text',
  'Tests convert a handful of documents with one element each.',
  ['creole/rest_tools/clean_writer.py'],
  [('CleanHTMLTranslator, rest2html', 'creole/rest_tools/clean_writer.py')],
  ['html_body returned by rest2html'])

p('C27', 'The diff of a README check says exactly what changed',
  '''unified_diff() of two texts is empty if and only if they are equal. Otherwise it names both sides (with the file name, if given) and
  shows only real changes: applied to the old text it gives the new text, what it leaves out is the same in both, and a last line
  without line end is marked on a line of its own. A README check that fails shows the diff from the file to the text generated now.''',
  ['inputs'], 'every pair of texts, any number of lines between changes, with and without a line end at the end',
  'The tests look at one diff.',
  ['creole/shared/diff_utils.py', 'creole/setup_utils.py'],
  [('unified_diff', 'creole/shared/diff_utils.py'), ('assert_rst_readme, assert_markdown_readme', 'creole/setup_utils.py')],
  ['returned text', 'message of AssertionError'])

p('C28', 'The debug option prints and does nothing else',
  '''With debug=True every conversion (creole2html, html2creole, html2rest, html2textile, html2markdown, parse_html) gives the same result, or
  raises the same kind of exception, as without it; without it nothing is written to stdout or stderr (macro errors at verbose
  above 1 aside). Showing a node or a document tree with its debug methods works for every tree and leaves the tree as it is.''',
  ['inputs'], 'every text, all constructs and elements, every tree of either parser',
  'No test compares a conversion with and without debug.',
  ['creole/__init__.py', 'creole/shared/document_tree.py', 'creole/shared/base_emitter.py', 'creole/parser/html_parser.py', 'creole/parser/creol2html_parser.py'],
  [('creole2html, html2*, parse_html', 'creole/__init__.py'), ('DocNode.debug', 'creole/shared/document_tree.py'), ('HtmlParser.debug', 'creole/parser/html_parser.py'),
   ('CreoleParser.debug_tree', 'creole/parser/creol2html_parser.py')],
  ['return values', 'writes to stdout and stderr'])


def main():
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(path, 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')


if __name__ == '__main__':
    main()
