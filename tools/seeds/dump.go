package main

// A store written by the version before the change.
var nodes = []struct {
	prev, next uint
	targets    []uint
	sources    []uint
}{
	{0, 2, nil, []uint{13, 14}},
	{1, 3, nil, []uint{17, 21, 25, 29, 33, 37, 41, 49, 53, 57, 61, 69, 73, 81, 85, 89, 93, 97, 109, 113, 117, 129, 133, 145, 149, 153, 180, 184, 188, 196, 204, 240, 244, 256}},
	{2, 4, nil, []uint{45, 65, 77, 101, 121, 137, 141, 157, 192, 200, 208, 212, 216, 224, 228, 232, 248, 252, 260, 264, 268}},
	{3, 5, nil, []uint{105, 125, 161, 220, 236, 272}},
	{4, 6, nil, []uint{165, 276, 287}},
	{5, 7, nil, []uint{9, 176, 283}},
	{6, 8, nil, []uint{168, 279, 290}},
	{7, 0, nil, []uint{172, 294}},
	{0, 10, []uint{6}, nil},
	{9, 11, nil, []uint{167}},
	{10, 12, nil, nil},
	{11, 0, []uint{169}, []uint{169}},
	{0, 15, []uint{1}, nil},
	{0, 16, []uint{1}, nil},
	{13, 0, nil, []uint{26, 30, 70, 86, 90, 110, 114, 150, 154, 181, 185, 189, 205, 241}},
	{14, 0, []uint{18}, []uint{18, 22, 34, 38, 42, 50, 54, 58, 62, 74, 82, 94, 98, 118, 130, 134, 146, 197, 245, 257}},
	{0, 18, []uint{2}, nil},
	{17, 19, []uint{16}, []uint{16}},
	{18, 20, []uint{23}, nil},
	{19, 0, nil, nil},
	{0, 22, []uint{2}, nil},
	{21, 23, []uint{16}, nil},
	{22, 24, []uint{27, 83}, []uint{19}},
	{23, 0, nil, nil},
	{0, 26, []uint{2}, nil},
	{25, 27, []uint{15}, nil},
	{26, 28, []uint{31, 51}, []uint{23}},
	{27, 0, nil, nil},
	{0, 30, []uint{2}, nil},
	{29, 31, []uint{15}, nil},
	{30, 32, []uint{35, 111}, []uint{27}},
	{31, 0, nil, nil},
	{0, 34, []uint{2}, nil},
	{33, 35, []uint{16}, nil},
	{34, 36, []uint{39, 71}, []uint{31}},
	{35, 0, nil, nil},
	{0, 38, []uint{2}, nil},
	{37, 39, []uint{16}, nil},
	{38, 40, []uint{43}, []uint{35}},
	{39, 0, nil, nil},
	{0, 42, []uint{2}, nil},
	{41, 43, []uint{16}, nil},
	{42, 44, nil, []uint{39}},
	{43, 0, []uint{46}, []uint{46}},
	{0, 46, []uint{3}, nil},
	{45, 47, []uint{44}, []uint{44}},
	{46, 48, []uint{67}, nil},
	{47, 0, nil, nil},
	{0, 50, []uint{2}, nil},
	{49, 51, []uint{16}, nil},
	{50, 52, []uint{55, 182}, []uint{27}},
	{51, 0, nil, nil},
	{0, 54, []uint{2}, nil},
	{53, 55, []uint{16}, nil},
	{54, 56, []uint{59, 242}, []uint{51}},
	{55, 0, nil, nil},
	{0, 58, []uint{2}, nil},
	{57, 59, []uint{16}, nil},
	{58, 60, []uint{63}, []uint{55}},
	{59, 0, nil, nil},
	{0, 62, []uint{2}, nil},
	{61, 63, []uint{16}, nil},
	{62, 64, nil, []uint{59}},
	{63, 0, nil, []uint{66, 253}},
	{0, 66, []uint{3}, nil},
	{65, 67, []uint{64}, nil},
	{66, 68, []uint{79}, []uint{47}},
	{67, 0, nil, nil},
	{0, 70, []uint{2}, nil},
	{69, 71, []uint{15}, nil},
	{70, 72, []uint{75, 206}, []uint{35}},
	{71, 0, nil, nil},
	{0, 74, []uint{2}, nil},
	{73, 75, []uint{16}, nil},
	{74, 76, nil, []uint{71}},
	{75, 0, nil, []uint{78, 213, 233, 269}},
	{0, 78, []uint{3}, nil},
	{77, 79, []uint{76}, nil},
	{78, 80, []uint{103}, []uint{67}},
	{79, 0, nil, nil},
	{0, 82, []uint{2}, nil},
	{81, 83, []uint{16}, nil},
	{82, 84, []uint{87}, []uint{23}},
	{83, 0, nil, nil},
	{0, 86, []uint{2}, nil},
	{85, 87, []uint{15}, nil},
	{86, 88, []uint{91, 147}, []uint{83}},
	{87, 0, nil, nil},
	{0, 90, []uint{2}, nil},
	{89, 91, []uint{15}, nil},
	{90, 92, []uint{95}, []uint{87}},
	{91, 0, nil, nil},
	{0, 94, []uint{2}, nil},
	{93, 95, []uint{16}, nil},
	{94, 96, []uint{99}, []uint{91}},
	{95, 0, nil, nil},
	{0, 98, []uint{2}, nil},
	{97, 99, []uint{16}, nil},
	{98, 100, nil, []uint{95}},
	{99, 0, nil, []uint{102, 217, 265}},
	{0, 102, []uint{3}, nil},
	{101, 103, []uint{100}, nil},
	{102, 104, nil, []uint{79}},
	{103, 0, []uint{106}, []uint{106}},
	{0, 106, []uint{4}, nil},
	{105, 107, []uint{104}, []uint{104}},
	{106, 108, nil, nil},
	{107, 0, []uint{166}, []uint{288}},
	{0, 110, []uint{2}, nil},
	{109, 111, []uint{15}, nil},
	{110, 112, []uint{115, 131}, []uint{31}},
	{111, 0, nil, nil},
	{0, 114, []uint{2}, nil},
	{113, 115, []uint{15}, nil},
	{114, 116, []uint{119}, []uint{111}},
	{115, 0, nil, nil},
	{0, 118, []uint{2}, nil},
	{117, 119, []uint{16}, nil},
	{118, 120, nil, []uint{115}},
	{119, 0, []uint{122}, []uint{122, 142}},
	{0, 122, []uint{3}, nil},
	{121, 123, []uint{120}, []uint{120}},
	{122, 124, nil, nil},
	{123, 0, []uint{126}, []uint{126}},
	{0, 126, []uint{4}, nil},
	{125, 127, []uint{124}, []uint{124}},
	{126, 128, []uint{163}, nil},
	{127, 0, nil, nil},
	{0, 130, []uint{2}, nil},
	{129, 131, []uint{16}, nil},
	{130, 132, []uint{135}, []uint{111}},
	{131, 0, nil, nil},
	{0, 134, []uint{2}, nil},
	{133, 135, []uint{16}, nil},
	{134, 136, nil, []uint{131}},
	{135, 0, []uint{138}, []uint{138}},
	{0, 138, []uint{3}, nil},
	{137, 139, []uint{136}, []uint{136}},
	{138, 140, []uint{143}, nil},
	{139, 0, nil, nil},
	{0, 142, []uint{3}, nil},
	{141, 143, []uint{120}, nil},
	{142, 144, []uint{159}, []uint{139}},
	{143, 0, nil, nil},
	{0, 146, []uint{2}, nil},
	{145, 147, []uint{16}, nil},
	{146, 148, []uint{151}, []uint{87}},
	{147, 0, nil, nil},
	{0, 150, []uint{2}, nil},
	{149, 151, []uint{15}, nil},
	{150, 152, []uint{155, 258}, []uint{147}},
	{151, 0, nil, nil},
	{0, 154, []uint{2}, nil},
	{153, 155, []uint{15}, nil},
	{154, 156, nil, []uint{151}},
	{155, 0, []uint{225}, []uint{158, 225}},
	{0, 158, []uint{3}, nil},
	{157, 159, []uint{156}, nil},
	{158, 160, nil, []uint{143}},
	{159, 0, nil, []uint{162}},
	{0, 162, []uint{4}, nil},
	{161, 163, []uint{160}, nil},
	{162, 164, nil, []uint{127}},
	{163, 0, []uint{288}, []uint{166}},
	{0, 166, []uint{5}, nil},
	{165, 167, []uint{164}, []uint{108}},
	{166, 0, []uint{10}, nil},
	{0, 169, []uint{7}, nil},
	{168, 170, []uint{12}, []uint{12}},
	{169, 171, []uint{281}, nil},
	{170, 0, []uint{173}, []uint{173}},
	{0, 173, []uint{8}, nil},
	{172, 174, []uint{171}, []uint{171, 282}},
	{173, 175, nil, nil},
	{174, 0, nil, []uint{297}},
	{0, 177, []uint{6}, nil},
	{176, 178, nil, []uint{278}},
	{177, 179, nil, nil},
	{178, 0, []uint{280}, []uint{280}},
	{0, 181, []uint{2}, nil},
	{180, 182, []uint{15}, nil},
	{181, 183, []uint{186}, []uint{51}},
	{182, 0, nil, nil},
	{0, 185, []uint{2}, nil},
	{184, 186, []uint{15}, nil},
	{185, 187, []uint{190, 198}, []uint{182}},
	{186, 0, nil, nil},
	{0, 189, []uint{2}, nil},
	{188, 190, []uint{15}, nil},
	{189, 191, nil, []uint{186}},
	{190, 0, []uint{193}, []uint{193, 229}},
	{0, 193, []uint{3}, nil},
	{192, 194, []uint{191}, []uint{191}},
	{193, 195, []uint{202}, nil},
	{194, 0, nil, nil},
	{0, 197, []uint{2}, nil},
	{196, 198, []uint{16}, nil},
	{197, 199, nil, []uint{186}},
	{198, 0, nil, []uint{201}},
	{0, 201, []uint{3}, nil},
	{200, 202, []uint{199}, nil},
	{201, 203, []uint{210}, []uint{194}},
	{202, 0, nil, nil},
	{0, 205, []uint{2}, nil},
	{204, 206, []uint{15}, nil},
	{205, 207, nil, []uint{71}},
	{206, 0, nil, []uint{209}},
	{0, 209, []uint{3}, nil},
	{208, 210, []uint{207}, nil},
	{209, 211, []uint{214}, []uint{202}},
	{210, 0, nil, nil},
	{0, 213, []uint{3}, nil},
	{212, 214, []uint{76}, nil},
	{213, 215, []uint{218}, []uint{210}},
	{214, 0, nil, nil},
	{0, 217, []uint{3}, nil},
	{216, 218, []uint{100}, nil},
	{217, 219, nil, []uint{214}},
	{218, 0, []uint{221}, []uint{221}},
	{0, 221, []uint{4}, nil},
	{220, 222, []uint{219}, []uint{219}},
	{221, 223, nil, nil},
	{222, 0, []uint{277}, nil},
	{0, 225, []uint{3}, nil},
	{224, 226, []uint{156}, []uint{156}},
	{225, 227, []uint{230}, nil},
	{226, 0, nil, nil},
	{0, 229, []uint{3}, nil},
	{228, 230, []uint{191}, nil},
	{229, 231, []uint{234}, []uint{226}},
	{230, 0, nil, nil},
	{0, 233, []uint{3}, nil},
	{232, 234, []uint{76}, nil},
	{233, 235, nil, []uint{230}},
	{234, 0, []uint{237}, []uint{237}},
	{0, 237, []uint{4}, nil},
	{236, 238, []uint{235}, []uint{235}},
	{237, 239, []uint{274}, nil},
	{238, 0, nil, nil},
	{0, 241, []uint{2}, nil},
	{240, 242, []uint{15}, nil},
	{241, 243, []uint{246}, []uint{55}},
	{242, 0, nil, nil},
	{0, 245, []uint{2}, nil},
	{244, 246, []uint{16}, nil},
	{245, 247, nil, []uint{242}},
	{246, 0, []uint{249}, []uint{249}},
	{0, 249, []uint{3}, nil},
	{248, 250, []uint{247}, []uint{247}},
	{249, 251, []uint{254}, nil},
	{250, 0, nil, nil},
	{0, 253, []uint{3}, nil},
	{252, 254, []uint{64}, nil},
	{253, 255, []uint{262}, []uint{250}},
	{254, 0, nil, nil},
	{0, 257, []uint{2}, nil},
	{256, 258, []uint{16}, nil},
	{257, 259, nil, []uint{151}},
	{258, 0, nil, []uint{261}},
	{0, 261, []uint{3}, nil},
	{260, 262, []uint{259}, nil},
	{261, 263, []uint{266}, []uint{254}},
	{262, 0, nil, nil},
	{0, 265, []uint{3}, nil},
	{264, 266, []uint{100}, nil},
	{265, 267, []uint{270}, []uint{262}},
	{266, 0, nil, nil},
	{0, 269, []uint{3}, nil},
	{268, 270, []uint{76}, nil},
	{269, 271, nil, []uint{266}},
	{270, 0, nil, []uint{273}},
	{0, 273, []uint{4}, nil},
	{272, 274, []uint{271}, nil},
	{273, 275, nil, []uint{238}},
	{274, 0, nil, []uint{277}},
	{0, 277, []uint{5}, nil},
	{276, 278, []uint{275}, []uint{223}},
	{277, 0, []uint{177}, nil},
	{0, 280, []uint{7}, nil},
	{279, 281, []uint{179}, []uint{179}},
	{280, 282, nil, []uint{170}},
	{281, 0, []uint{173}, nil},
	{0, 284, []uint{6}, nil},
	{283, 285, nil, []uint{289}},
	{284, 286, nil, nil},
	{285, 0, []uint{291}, []uint{291}},
	{0, 288, []uint{5}, nil},
	{287, 289, []uint{108}, []uint{164}},
	{288, 0, []uint{284}, nil},
	{0, 291, []uint{7}, nil},
	{290, 292, []uint{286}, []uint{286}},
	{291, 293, nil, nil},
	{292, 0, []uint{295}, []uint{295}},
	{0, 295, []uint{8}, nil},
	{294, 296, []uint{293}, []uint{293}},
	{295, 297, nil, nil},
	{296, 0, []uint{175}, nil},
}

var written = []struct {
	id   uint
	o, p string
}{
	{9, "goes", "a cat"},
	{176, "hides", "the mouse"},
	{283, "a cat", "goes"},
}

func load() *mem {
	m := newMem()
	for i, n := range nodes {
		id := uint(i + 1)
		m.n = id
		m.prev[id], m.next[id] = n.prev, n.next
		m.targets[id], m.sources[id] = n.targets, n.sources
	}
	return m
}
