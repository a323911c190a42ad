"""The characters that need two columns in docutils (East Asian width W and F, Unicode 15.0; without the ideographic blank)."""
WIDE = (
    r'['
    r'\U00001100-\U0000115f\U0000231a-\U0000231b\U00002329-\U0000232a\U000023e9-\U000023ec\U000023f0-\U000023f0\U000023f3-\U000023f3\U000025fd-\U000025fe'
    r'\U00002614-\U00002615\U00002648-\U00002653\U0000267f-\U0000267f\U00002693-\U00002693\U000026a1-\U000026a1\U000026aa-\U000026ab\U000026bd-\U000026be'
    r'\U000026c4-\U000026c5\U000026ce-\U000026ce\U000026d4-\U000026d4\U000026ea-\U000026ea\U000026f2-\U000026f3\U000026f5-\U000026f5\U000026fa-\U000026fa'
    r'\U000026fd-\U000026fd\U00002705-\U00002705\U0000270a-\U0000270b\U00002728-\U00002728\U0000274c-\U0000274c\U0000274e-\U0000274e\U00002753-\U00002755'
    r'\U00002757-\U00002757\U00002795-\U00002797\U000027b0-\U000027b0\U000027bf-\U000027bf\U00002b1b-\U00002b1c\U00002b50-\U00002b50\U00002b55-\U00002b55'
    r'\U00002e80-\U00002e99\U00002e9b-\U00002ef3\U00002f00-\U00002fd5\U00002ff0-\U00002ffb\U00003001-\U0000303e\U00003041-\U00003096\U00003099-\U000030ff'
    r'\U00003105-\U0000312f\U00003131-\U0000318e\U00003190-\U000031e3\U000031f0-\U0000321e\U00003220-\U00003247\U00003250-\U00004dbf\U00004e00-\U0000a48c'
    r'\U0000a490-\U0000a4c6\U0000a960-\U0000a97c\U0000ac00-\U0000d7a3\U0000f900-\U0000faff\U0000fe10-\U0000fe19\U0000fe30-\U0000fe52\U0000fe54-\U0000fe66'
    r'\U0000fe68-\U0000fe6b\U0000ff01-\U0000ff60\U0000ffe0-\U0000ffe6\U00016fe0-\U00016fe4\U00016ff0-\U00016ff1\U00017000-\U000187f7\U00018800-\U00018cd5'
    r'\U00018d00-\U00018d08\U0001aff0-\U0001aff3\U0001aff5-\U0001affb\U0001affd-\U0001affe\U0001b000-\U0001b122\U0001b132-\U0001b132\U0001b150-\U0001b152'
    r'\U0001b155-\U0001b155\U0001b164-\U0001b167\U0001b170-\U0001b2fb\U0001f004-\U0001f004\U0001f0cf-\U0001f0cf\U0001f18e-\U0001f18e\U0001f191-\U0001f19a'
    r'\U0001f200-\U0001f202\U0001f210-\U0001f23b\U0001f240-\U0001f248\U0001f250-\U0001f251\U0001f260-\U0001f265\U0001f300-\U0001f320\U0001f32d-\U0001f335'
    r'\U0001f337-\U0001f37c\U0001f37e-\U0001f393\U0001f3a0-\U0001f3ca\U0001f3cf-\U0001f3d3\U0001f3e0-\U0001f3f0\U0001f3f4-\U0001f3f4\U0001f3f8-\U0001f43e'
    r'\U0001f440-\U0001f440\U0001f442-\U0001f4fc\U0001f4ff-\U0001f53d\U0001f54b-\U0001f54e\U0001f550-\U0001f567\U0001f57a-\U0001f57a\U0001f595-\U0001f596'
    r'\U0001f5a4-\U0001f5a4\U0001f5fb-\U0001f64f\U0001f680-\U0001f6c5\U0001f6cc-\U0001f6cc\U0001f6d0-\U0001f6d2\U0001f6d5-\U0001f6d7\U0001f6dc-\U0001f6df'
    r'\U0001f6eb-\U0001f6ec\U0001f6f4-\U0001f6fc\U0001f7e0-\U0001f7eb\U0001f7f0-\U0001f7f0\U0001f90c-\U0001f93a\U0001f93c-\U0001f945\U0001f947-\U0001f9ff'
    r'\U0001fa70-\U0001fa7c\U0001fa80-\U0001fa88\U0001fa90-\U0001fabd\U0001fabf-\U0001fac5\U0001face-\U0001fadb\U0001fae0-\U0001fae8\U0001faf0-\U0001faf8'
    r'\U00020000-\U0002fffd\U00030000-\U0003fffd'
    r']'
)
