// generated by tools/gen_unicode.py
struct RefRun { uint32_t first, last; int step, delta; };
static const RefRun ref_upper[] = {{0x61,0x7A,1,-32},{0xB5,0xB5,1,743},{0xE0,0xF6,1,-32},{0xF8,0xFE,1,-32},{0xFF,0xFF,1,121},{0x101,0x12F,2,-1},{0x131,0x131,1,-232},{0x133,0x137,2,-1},{0x13A,0x148,2,-1},{0x14B,0x177,2,-1},{0x17A,0x17E,2,-1},{0x17F,0x17F,1,-300},{0x183,0x185,2,-1},{0x188,0x188,1,-1},{0x18C,0x18C,1,-1},{0x192,0x192,1,-1},{0x195,0x195,1,97},{0x199,0x199,1,-1},{0x1A1,0x1A5,2,-1},{0x1A8,0x1A8,1,-1},{0x1AD,0x1AD,1,-1},{0x1B0,0x1B0,1,-1},{0x1B4,0x1B6,2,-1},{0x1B9,0x1B9,1,-1},{0x1BD,0x1BD,1,-1},{0x1BF,0x1BF,1,56},{0x1C5,0x1C5,1,-1},{0x1C6,0x1C6,1,-2},{0x1C8,0x1C8,1,-1},{0x1C9,0x1C9,1,-2},{0x1CB,0x1CB,1,-1},{0x1CC,0x1CC,1,-2},{0x1CE,0x1DC,2,-1},{0x1DD,0x1DD,1,-79},{0x1DF,0x1EF,2,-1},{0x1F2,0x1F2,1,-1},{0x1F3,0x1F3,1,-2},{0x1F5,0x1F5,1,-1},{0x1F9,0x21F,2,-1},{0x223,0x233,2,-1},{0x253,0x253,1,-210},{0x254,0x254,1,-206},{0x256,0x257,1,-205},{0x259,0x259,1,-202},{0x25B,0x25B,1,-203},{0x260,0x260,1,-205},{0x263,0x263,1,-207},{0x268,0x268,1,-209},{0x269,0x269,1,-211},{0x26F,0x26F,1,-211},{0x272,0x272,1,-213},{0x275,0x275,1,-214},{0x280,0x280,1,-218},{0x283,0x283,1,-218},{0x288,0x288,1,-218},{0x28A,0x28B,1,-217},{0x292,0x292,1,-219},{0x345,0x345,1,84},{0x3AC,0x3AC,1,-38},{0x3AD,0x3AF,1,-37},{0x3B1,0x3C1,1,-32},{0x3C2,0x3C2,1,-31},{0x3C3,0x3CB,1,-32},{0x3CC,0x3CC,1,-64},{0x3CD,0x3CE,1,-63},{0x3D0,0x3D0,1,-62},{0x3D1,0x3D1,1,-57},{0x3D5,0x3D5,1,-47},{0x3D6,0x3D6,1,-54},{0x3DB,0x3EF,2,-1},{0x3F0,0x3F0,1,-86},{0x3F1,0x3F1,1,-80},{0x3F2,0x3F2,1,-79},{0x430,0x44F,1,-32},{0x450,0x45F,1,-80},{0x461,0x481,2,-1},{0x48D,0x4BF,2,-1},{0x4C2,0x4C4,2,-1},{0x4C8,0x4C8,1,-1},{0x4CC,0x4CC,1,-1},{0x4D1,0x4F5,2,-1},{0x4F9,0x4F9,1,-1},{0x561,0x586,1,-48},{0x1E01,0x1E95,2,-1},{0x1E9B,0x1E9B,1,-59},{0x1EA1,0x1EF9,2,-1},{0x1F00,0x1F07,1,8},{0x1F10,0x1F15,1,8},{0x1F20,0x1F27,1,8},{0x1F30,0x1F37,1,8},{0x1F40,0x1F45,1,8},{0x1F51,0x1F57,2,8},{0x1F60,0x1F67,1,8},{0x1F70,0x1F71,1,74},{0x1F72,0x1F75,1,86},{0x1F76,0x1F77,1,100},{0x1F78,0x1F79,1,128},{0x1F7A,0x1F7B,1,112},{0x1F7C,0x1F7D,1,126},{0x1F80,0x1F87,1,8},{0x1F90,0x1F97,1,8},{0x1FA0,0x1FA7,1,8},{0x1FB0,0x1FB1,1,8},{0x1FB3,0x1FB3,1,9},{0x1FBE,0x1FBE,1,-7205},{0x1FC3,0x1FC3,1,9},{0x1FD0,0x1FD1,1,8},{0x1FE0,0x1FE1,1,8},{0x1FE5,0x1FE5,1,7},{0x1FF3,0x1FF3,1,9},{0x2170,0x217F,1,-16},{0x24D0,0x24E9,1,-26},{0xFF41,0xFF5A,1,-32}};
static const RefRun ref_lower[] = {{0x41,0x5A,1,32},{0xC0,0xD6,1,32},{0xD8,0xDE,1,32},{0x100,0x12E,2,1},{0x130,0x130,1,-199},{0x132,0x136,2,1},{0x139,0x147,2,1},{0x14A,0x176,2,1},{0x178,0x178,1,-121},{0x179,0x17D,2,1},{0x181,0x181,1,210},{0x182,0x184,2,1},{0x186,0x186,1,206},{0x187,0x187,1,1},{0x189,0x18A,1,205},{0x18B,0x18B,1,1},{0x18E,0x18E,1,79},{0x18F,0x18F,1,202},{0x190,0x190,1,203},{0x191,0x191,1,1},{0x193,0x193,1,205},{0x194,0x194,1,207},{0x196,0x196,1,211},{0x197,0x197,1,209},{0x198,0x198,1,1},{0x19C,0x19C,1,211},{0x19D,0x19D,1,213},{0x19F,0x19F,1,214},{0x1A0,0x1A4,2,1},{0x1A6,0x1A6,1,218},{0x1A7,0x1A7,1,1},{0x1A9,0x1A9,1,218},{0x1AC,0x1AC,1,1},{0x1AE,0x1AE,1,218},{0x1AF,0x1AF,1,1},{0x1B1,0x1B2,1,217},{0x1B3,0x1B5,2,1},{0x1B7,0x1B7,1,219},{0x1B8,0x1B8,1,1},{0x1BC,0x1BC,1,1},{0x1C4,0x1C4,1,2},{0x1C5,0x1C5,1,1},{0x1C7,0x1C7,1,2},{0x1C8,0x1C8,1,1},{0x1CA,0x1CA,1,2},{0x1CB,0x1DB,2,1},{0x1DE,0x1EE,2,1},{0x1F1,0x1F1,1,2},{0x1F2,0x1F4,2,1},{0x1F6,0x1F6,1,-97},{0x1F7,0x1F7,1,-56},{0x1F8,0x21E,2,1},{0x222,0x232,2,1},{0x386,0x386,1,38},{0x388,0x38A,1,37},{0x38C,0x38C,1,64},{0x38E,0x38F,1,63},{0x391,0x3A1,1,32},{0x3A3,0x3AB,1,32},{0x3DA,0x3EE,2,1},{0x400,0x40F,1,80},{0x410,0x42F,1,32},{0x460,0x480,2,1},{0x48C,0x4BE,2,1},{0x4C1,0x4C3,2,1},{0x4C7,0x4C7,1,1},{0x4CB,0x4CB,1,1},{0x4D0,0x4F4,2,1},{0x4F8,0x4F8,1,1},{0x531,0x556,1,48},{0x1E00,0x1E94,2,1},{0x1EA0,0x1EF8,2,1},{0x1F08,0x1F0F,1,-8},{0x1F18,0x1F1D,1,-8},{0x1F28,0x1F2F,1,-8},{0x1F38,0x1F3F,1,-8},{0x1F48,0x1F4D,1,-8},{0x1F59,0x1F5F,2,-8},{0x1F68,0x1F6F,1,-8},{0x1F88,0x1F8F,1,-8},{0x1F98,0x1F9F,1,-8},{0x1FA8,0x1FAF,1,-8},{0x1FB8,0x1FB9,1,-8},{0x1FBA,0x1FBB,1,-74},{0x1FBC,0x1FBC,1,-9},{0x1FC8,0x1FCB,1,-86},{0x1FCC,0x1FCC,1,-9},{0x1FD8,0x1FD9,1,-8},{0x1FDA,0x1FDB,1,-100},{0x1FE8,0x1FE9,1,-8},{0x1FEA,0x1FEB,1,-112},{0x1FEC,0x1FEC,1,-7},{0x1FF8,0x1FF9,1,-128},{0x1FFA,0x1FFB,1,-126},{0x1FFC,0x1FFC,1,-9},{0x2126,0x2126,1,-7517},{0x212A,0x212A,1,-8383},{0x212B,0x212B,1,-8262},{0x2160,0x216F,1,16},{0x24B6,0x24CF,1,26},{0xFF21,0xFF3A,1,32}};
static const RefRun ref_title[] = {{0x61,0x7A,1,-32},{0xB5,0xB5,1,743},{0xE0,0xF6,1,-32},{0xF8,0xFE,1,-32},{0xFF,0xFF,1,121},{0x101,0x12F,2,-1},{0x131,0x131,1,-232},{0x133,0x137,2,-1},{0x13A,0x148,2,-1},{0x14B,0x177,2,-1},{0x17A,0x17E,2,-1},{0x17F,0x17F,1,-300},{0x183,0x185,2,-1},{0x188,0x188,1,-1},{0x18C,0x18C,1,-1},{0x192,0x192,1,-1},{0x195,0x195,1,97},{0x199,0x199,1,-1},{0x1A1,0x1A5,2,-1},{0x1A8,0x1A8,1,-1},{0x1AD,0x1AD,1,-1},{0x1B0,0x1B0,1,-1},{0x1B4,0x1B6,2,-1},{0x1B9,0x1B9,1,-1},{0x1BD,0x1BD,1,-1},{0x1BF,0x1BF,1,56},{0x1C4,0x1C4,1,1},{0x1C6,0x1C6,1,-1},{0x1C7,0x1C7,1,1},{0x1C9,0x1C9,1,-1},{0x1CA,0x1CA,1,1},{0x1CC,0x1DC,2,-1},{0x1DD,0x1DD,1,-79},{0x1DF,0x1EF,2,-1},{0x1F1,0x1F1,1,1},{0x1F3,0x1F5,2,-1},{0x1F9,0x21F,2,-1},{0x223,0x233,2,-1},{0x253,0x253,1,-210},{0x254,0x254,1,-206},{0x256,0x257,1,-205},{0x259,0x259,1,-202},{0x25B,0x25B,1,-203},{0x260,0x260,1,-205},{0x263,0x263,1,-207},{0x268,0x268,1,-209},{0x269,0x269,1,-211},{0x26F,0x26F,1,-211},{0x272,0x272,1,-213},{0x275,0x275,1,-214},{0x280,0x280,1,-218},{0x283,0x283,1,-218},{0x288,0x288,1,-218},{0x28A,0x28B,1,-217},{0x292,0x292,1,-219},{0x345,0x345,1,84},{0x3AC,0x3AC,1,-38},{0x3AD,0x3AF,1,-37},{0x3B1,0x3C1,1,-32},{0x3C2,0x3C2,1,-31},{0x3C3,0x3CB,1,-32},{0x3CC,0x3CC,1,-64},{0x3CD,0x3CE,1,-63},{0x3D0,0x3D0,1,-62},{0x3D1,0x3D1,1,-57},{0x3D5,0x3D5,1,-47},{0x3D6,0x3D6,1,-54},{0x3DB,0x3EF,2,-1},{0x3F0,0x3F0,1,-86},{0x3F1,0x3F1,1,-80},{0x3F2,0x3F2,1,-79},{0x430,0x44F,1,-32},{0x450,0x45F,1,-80},{0x461,0x481,2,-1},{0x48D,0x4BF,2,-1},{0x4C2,0x4C4,2,-1},{0x4C8,0x4C8,1,-1},{0x4CC,0x4CC,1,-1},{0x4D1,0x4F5,2,-1},{0x4F9,0x4F9,1,-1},{0x561,0x586,1,-48},{0x1E01,0x1E95,2,-1},{0x1E9B,0x1E9B,1,-59},{0x1EA1,0x1EF9,2,-1},{0x1F00,0x1F07,1,8},{0x1F10,0x1F15,1,8},{0x1F20,0x1F27,1,8},{0x1F30,0x1F37,1,8},{0x1F40,0x1F45,1,8},{0x1F51,0x1F57,2,8},{0x1F60,0x1F67,1,8},{0x1F70,0x1F71,1,74},{0x1F72,0x1F75,1,86},{0x1F76,0x1F77,1,100},{0x1F78,0x1F79,1,128},{0x1F7A,0x1F7B,1,112},{0x1F7C,0x1F7D,1,126},{0x1F80,0x1F87,1,8},{0x1F90,0x1F97,1,8},{0x1FA0,0x1FA7,1,8},{0x1FB0,0x1FB1,1,8},{0x1FB3,0x1FB3,1,9},{0x1FBE,0x1FBE,1,-7205},{0x1FC3,0x1FC3,1,9},{0x1FD0,0x1FD1,1,8},{0x1FE0,0x1FE1,1,8},{0x1FE5,0x1FE5,1,7},{0x1FF3,0x1FF3,1,9},{0x2170,0x217F,1,-16},{0x24D0,0x24E9,1,-26},{0xFF41,0xFF5A,1,-32}};
static const RefRun ref_alpha[] = {{0x41,0x5A,1,0},{0x61,0x7A,1,0},{0xAA,0xAA,1,0},{0xB5,0xB5,1,0},{0xBA,0xBA,1,0},{0xC0,0xD6,1,0},{0xD8,0xF6,1,0},{0xF8,0x1BA,1,0},{0x1BC,0x1BF,1,0},{0x1C4,0x21F,1,0},{0x222,0x233,1,0},{0x250,0x2AD,1,0},{0x345,0x345,1,0},{0x386,0x388,2,0},{0x389,0x38A,1,0},{0x38C,0x38E,2,0},{0x38F,0x3A1,1,0},{0x3A3,0x3CE,1,0},{0x3D0,0x3D7,1,0},{0x3DA,0x3F3,1,0},{0x400,0x481,1,0},{0x48C,0x4C4,1,0},{0x4C7,0x4C8,1,0},{0x4CB,0x4CC,1,0},{0x4D0,0x4F5,1,0},{0x4F8,0x4F9,1,0},{0x531,0x556,1,0},{0x561,0x587,1,0},{0x10A0,0x10C5,1,0},{0x1E00,0x1E9B,1,0},{0x1EA0,0x1EF9,1,0},{0x1F00,0x1F15,1,0},{0x1F18,0x1F1D,1,0},{0x1F20,0x1F45,1,0},{0x1F48,0x1F4D,1,0},{0x1F50,0x1F57,1,0},{0x1F59,0x1F5F,2,0},{0x1F60,0x1F7D,1,0},{0x1F80,0x1FB4,1,0},{0x1FB6,0x1FBC,1,0},{0x1FBE,0x1FBE,1,0},{0x1FC2,0x1FC4,1,0},{0x1FC6,0x1FCC,1,0},{0x1FD0,0x1FD3,1,0},{0x1FD6,0x1FDB,1,0},{0x1FE0,0x1FEC,1,0},{0x1FF2,0x1FF4,1,0},{0x1FF6,0x1FFC,1,0},{0x207F,0x207F,1,0},{0x2102,0x2102,1,0},{0x2107,0x2107,1,0},{0x210A,0x2113,1,0},{0x2115,0x2115,1,0},{0x2119,0x211D,1,0},{0x2124,0x212A,2,0},{0x212B,0x212D,1,0},{0x212F,0x2131,1,0},{0x2133,0x2134,1,0},{0x2139,0x2139,1,0},{0x2160,0x217F,1,0},{0x24B6,0x24E9,1,0},{0xFB00,0xFB06,1,0},{0xFB13,0xFB17,1,0},{0xFF21,0xFF3A,1,0},{0xFF41,0xFF5A,1,0}};
static const RefRun ref_digit[] = {{0x30,0x39,1,-48},{0x660,0x669,1,-1632},{0x6F0,0x6F9,1,-1776},{0x966,0x96F,1,-2406},{0x9E6,0x9EF,1,-2534},{0xA66,0xA6F,1,-2662},{0xAE7,0xAEF,1,-2790},{0xB66,0xB6F,1,-2918},{0xBE6,0xBEF,1,-3046},{0xC66,0xC6F,1,-3174},{0xCE6,0xCEF,1,-3302},{0xD66,0xD6F,1,-3430},{0xE50,0xE59,1,-3664},{0xED0,0xED9,1,-3792},{0xF20,0xF29,1,-3872},{0x1040,0x1049,1,-4160},{0x1369,0x1371,1,-4968},{0x17E0,0x17E9,1,-6112},{0x1810,0x1819,1,-6160},{0x3007,0x3007,1,-12295},{0x3021,0x3029,1,-12320},{0xFF10,0xFF19,1,-65296}};
