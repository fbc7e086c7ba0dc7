package main

// A store written by the version before the change.
var nodes = []struct {
	prev, next uint
	targets    []uint
	sources    []uint
}{
	{0, 2, nil, []uint{13, 14}},
	{1, 3, nil, []uint{17, 21, 25, 29, 33, 37, 41, 53, 57, 84, 88, 92, 104, 116}},
	{2, 4, nil, []uint{45, 61, 96, 108, 120}},
	{3, 5, nil, []uint{49, 65, 100, 112, 124, 128, 132, 136, 155, 159, 163, 167, 171, 175}},
	{4, 6, nil, []uint{69, 140, 179}},
	{5, 7, nil, []uint{9, 80, 151}},
	{6, 8, nil, []uint{72, 143, 182}},
	{7, 0, nil, []uint{76, 147, 186}},
	{0, 10, []uint{6}, nil},
	{9, 11, nil, []uint{71}},
	{10, 12, nil, nil},
	{11, 0, []uint{73}, []uint{73}},
	{0, 15, []uint{1}, nil},
	{0, 16, []uint{1}, nil},
	{13, 0, nil, []uint{26, 30, 34, 38, 58, 89, 105}},
	{14, 0, []uint{18}, []uint{18, 22, 42, 54, 85, 93, 117}},
	{0, 18, []uint{2}, nil},
	{17, 19, []uint{16}, []uint{16}},
	{18, 20, []uint{23}, nil},
	{19, 0, nil, nil},
	{0, 22, []uint{2}, nil},
	{21, 23, []uint{16}, nil},
	{22, 24, []uint{27}, []uint{19}},
	{23, 0, nil, nil},
	{0, 26, []uint{2}, nil},
	{25, 27, []uint{15}, nil},
	{26, 28, []uint{31}, []uint{23}},
	{27, 0, nil, nil},
	{0, 30, []uint{2}, nil},
	{29, 31, []uint{15}, nil},
	{30, 32, []uint{35, 86}, []uint{27}},
	{31, 0, nil, nil},
	{0, 34, []uint{2}, nil},
	{33, 35, []uint{15}, nil},
	{34, 36, []uint{39, 55}, []uint{31}},
	{35, 0, nil, nil},
	{0, 38, []uint{2}, nil},
	{37, 39, []uint{15}, nil},
	{38, 40, []uint{43}, []uint{35}},
	{39, 0, nil, nil},
	{0, 42, []uint{2}, nil},
	{41, 43, []uint{16}, nil},
	{42, 44, nil, []uint{39}},
	{43, 0, []uint{46}, []uint{46}},
	{0, 46, []uint{3}, nil},
	{45, 47, []uint{44}, []uint{44}},
	{46, 48, nil, nil},
	{47, 0, []uint{50}, []uint{50, 133}},
	{0, 50, []uint{4}, nil},
	{49, 51, []uint{48}, []uint{48}},
	{50, 52, []uint{157}, nil},
	{51, 0, []uint{70}, nil},
	{0, 54, []uint{2}, nil},
	{53, 55, []uint{16}, nil},
	{54, 56, []uint{59, 118}, []uint{35}},
	{55, 0, nil, nil},
	{0, 58, []uint{2}, nil},
	{57, 59, []uint{15}, nil},
	{58, 60, nil, []uint{55}},
	{59, 0, []uint{62}, []uint{62}},
	{0, 62, []uint{3}, nil},
	{61, 63, []uint{60}, []uint{60}},
	{62, 64, nil, nil},
	{63, 0, []uint{66}, []uint{66, 129, 156, 176}},
	{0, 66, []uint{4}, nil},
	{65, 67, []uint{64}, []uint{64}},
	{66, 68, nil, nil},
	{67, 0, nil, []uint{70}},
	{0, 70, []uint{5}, nil},
	{69, 71, []uint{68}, []uint{52}},
	{70, 0, []uint{10}, nil},
	{0, 73, []uint{7}, nil},
	{72, 74, []uint{12}, []uint{12}},
	{73, 75, nil, nil},
	{74, 0, []uint{77}, []uint{77}},
	{0, 77, []uint{8}, nil},
	{76, 78, []uint{75}, []uint{75}},
	{77, 79, nil, nil},
	{78, 0, nil, nil},
	{0, 81, []uint{6}, nil},
	{80, 82, nil, []uint{142}},
	{81, 83, nil, nil},
	{82, 0, []uint{144}, []uint{144}},
	{0, 85, []uint{2}, nil},
	{84, 86, []uint{16}, nil},
	{85, 87, []uint{90}, []uint{31}},
	{86, 0, nil, nil},
	{0, 89, []uint{2}, nil},
	{88, 90, []uint{15}, nil},
	{89, 91, []uint{94, 106}, []uint{86}},
	{90, 0, nil, nil},
	{0, 93, []uint{2}, nil},
	{92, 94, []uint{16}, nil},
	{93, 95, nil, []uint{90}},
	{94, 0, []uint{97}, []uint{97}},
	{0, 97, []uint{3}, nil},
	{96, 98, []uint{95}, []uint{95}},
	{97, 99, nil, nil},
	{98, 0, []uint{101}, []uint{101}},
	{0, 101, []uint{4}, nil},
	{100, 102, []uint{99}, []uint{99}},
	{101, 103, []uint{114}, nil},
	{102, 0, nil, nil},
	{0, 105, []uint{2}, nil},
	{104, 106, []uint{15}, nil},
	{105, 107, nil, []uint{90}},
	{106, 0, []uint{109}, []uint{109}},
	{0, 109, []uint{3}, nil},
	{108, 110, []uint{107}, []uint{107}},
	{109, 111, nil, nil},
	{110, 0, []uint{168}, []uint{113, 164, 168}},
	{0, 113, []uint{4}, nil},
	{112, 114, []uint{111}, nil},
	{113, 115, []uint{126}, []uint{102}},
	{114, 0, nil, nil},
	{0, 117, []uint{2}, nil},
	{116, 118, []uint{16}, nil},
	{117, 119, nil, []uint{55}},
	{118, 0, []uint{121}, []uint{121}},
	{0, 121, []uint{3}, nil},
	{120, 122, []uint{119}, []uint{119}},
	{121, 123, nil, nil},
	{122, 0, []uint{137}, []uint{125, 137, 160, 172}},
	{0, 125, []uint{4}, nil},
	{124, 126, []uint{123}, nil},
	{125, 127, []uint{130}, []uint{114}},
	{126, 0, nil, nil},
	{0, 129, []uint{4}, nil},
	{128, 130, []uint{64}, nil},
	{129, 131, []uint{134}, []uint{126}},
	{130, 0, nil, nil},
	{0, 133, []uint{4}, nil},
	{132, 134, []uint{48}, nil},
	{133, 135, nil, []uint{130}},
	{134, 0, []uint{141}, nil},
	{0, 137, []uint{4}, nil},
	{136, 138, []uint{123}, []uint{123}},
	{137, 139, nil, nil},
	{138, 0, nil, []uint{141}},
	{0, 141, []uint{5}, nil},
	{140, 142, []uint{139}, []uint{135}},
	{141, 0, []uint{81}, nil},
	{0, 144, []uint{7}, nil},
	{143, 145, []uint{83}, []uint{83}},
	{144, 146, nil, nil},
	{145, 0, []uint{148}, []uint{148}},
	{0, 148, []uint{8}, nil},
	{147, 149, []uint{146}, []uint{146}},
	{148, 150, nil, nil},
	{149, 0, nil, nil},
	{0, 152, []uint{6}, nil},
	{151, 153, nil, []uint{181}},
	{152, 154, nil, nil},
	{153, 0, []uint{183}, []uint{183}},
	{0, 156, []uint{4}, nil},
	{155, 157, []uint{64}, nil},
	{156, 158, []uint{161}, []uint{51}},
	{157, 0, nil, nil},
	{0, 160, []uint{4}, nil},
	{159, 161, []uint{123}, nil},
	{160, 162, []uint{165}, []uint{157}},
	{161, 0, nil, nil},
	{0, 164, []uint{4}, nil},
	{163, 165, []uint{111}, nil},
	{164, 166, nil, []uint{161}},
	{165, 0, []uint{180}, nil},
	{0, 168, []uint{4}, nil},
	{167, 169, []uint{111}, []uint{111}},
	{168, 170, []uint{173}, nil},
	{169, 0, nil, nil},
	{0, 172, []uint{4}, nil},
	{171, 173, []uint{123}, nil},
	{172, 174, []uint{177}, []uint{169}},
	{173, 0, nil, nil},
	{0, 176, []uint{4}, nil},
	{175, 177, []uint{64}, nil},
	{176, 178, nil, []uint{173}},
	{177, 0, nil, []uint{180}},
	{0, 180, []uint{5}, nil},
	{179, 181, []uint{178}, []uint{166}},
	{180, 0, []uint{152}, nil},
	{0, 183, []uint{7}, nil},
	{182, 184, []uint{154}, []uint{154}},
	{183, 185, nil, nil},
	{184, 0, []uint{187}, []uint{187}},
	{0, 187, []uint{8}, nil},
	{186, 188, []uint{185}, []uint{185}},
	{187, 189, nil, nil},
	{188, 0, nil, nil},
}

var written = []struct {
	id   uint
	o, p string
}{
	{9, "a", "b"},
	{80, "e d c b a", "c"},
	{151, "a b c d", "d c b"},
}

func load() *mem {
	m := newMem()
	for i, n := range nodes {
		id := uint(i + 1)
		m.n = id
		m.prev[id], m.next[id] = n.prev, n.next
		m.targets[id], m.sources[id] = n.targets, n.sources
	}
	return m
}
