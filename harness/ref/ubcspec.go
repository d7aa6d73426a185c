// Unavoidable bit conditions of the 32 published disturbance vectors, by mask
// bit: W[i] bit a XOR W[j] bit b == v.

package ref

type cond struct{ i, a, j, b, v uint8 }

var ubcSpec = [32][]cond{
	{ // 0
		{37, 4, 39, 4, 1}, {37, 4, 40, 29, 0}, {37, 4, 41, 4, 0}, {37, 4, 42, 29, 1},
		{37, 4, 43, 4, 1}, {37, 4, 44, 29, 0}, {37, 4, 46, 29, 1}, {37, 4, 47, 29, 1},
		{58, 0, 59, 5, 1}, {58, 0, 63, 30, 1}, {61, 1, 62, 6, 1},
	},
	{ // 1
		{38, 4, 40, 4, 1}, {38, 4, 40, 29, 0}, {38, 4, 41, 29, 0}, {38, 4, 42, 4, 0},
		{38, 4, 43, 29, 1}, {38, 4, 44, 4, 1}, {38, 4, 45, 29, 0}, {38, 4, 47, 29, 1},
		{38, 4, 48, 29, 1}, {59, 0, 60, 5, 1}, {59, 0, 64, 30, 1}, {62, 1, 63, 6, 1},
	},
	{ // 2
		{35, 4, 39, 29, 0}, {39, 4, 41, 4, 1}, {39, 4, 41, 29, 0}, {39, 4, 42, 29, 0},
		{39, 4, 43, 4, 0}, {39, 4, 44, 29, 1}, {39, 4, 45, 4, 1}, {39, 4, 46, 29, 0},
		{39, 4, 48, 29, 1}, {39, 4, 49, 29, 1}, {60, 0, 61, 5, 1}, {63, 1, 64, 6, 1},
	},
	{ // 3
		{36, 4, 40, 29, 0}, {40, 4, 42, 4, 1}, {40, 4, 42, 29, 0}, {40, 4, 43, 29, 0},
		{40, 4, 44, 4, 0}, {40, 4, 45, 29, 1}, {40, 4, 46, 4, 1}, {40, 4, 47, 29, 0},
		{40, 4, 49, 29, 1}, {40, 4, 50, 29, 1}, {61, 0, 62, 5, 1},
	},
	{ // 4
		{35, 1, 36, 6, 1}, {39, 1, 40, 6, 1}, {39, 1, 42, 6, 1}, {39, 1, 44, 6, 1},
		{39, 1, 46, 6, 1}, {39, 1, 47, 1, 1}, {61, 2, 62, 7, 1},
	},
	{ // 5
		{37, 4, 40, 29, 0}, {37, 4, 41, 29, 0}, {41, 4, 43, 4, 1}, {41, 4, 43, 29, 0},
		{41, 4, 44, 29, 0}, {41, 4, 45, 4, 0}, {41, 4, 46, 29, 1}, {41, 4, 47, 4, 1},
		{41, 4, 48, 29, 0}, {41, 4, 50, 29, 1}, {41, 4, 51, 29, 1}, {62, 0, 63, 5, 1},
	},
	{ // 6
		{36, 1, 37, 6, 1}, {40, 1, 41, 6, 1}, {40, 1, 43, 6, 1}, {40, 1, 45, 6, 1},
		{40, 1, 47, 6, 1}, {40, 1, 48, 1, 1}, {62, 2, 63, 7, 1},
	},
	{ // 7
		{35, 4, 39, 29, 0}, {38, 4, 40, 29, 0}, {38, 4, 41, 29, 0}, {38, 4, 42, 29, 0},
		{42, 4, 44, 4, 1}, {42, 4, 44, 29, 0}, {42, 4, 45, 29, 0}, {42, 4, 46, 4, 0},
		{42, 4, 47, 29, 1}, {42, 4, 48, 4, 1}, {42, 4, 49, 29, 0}, {42, 4, 51, 29, 1},
		{42, 4, 52, 29, 1}, {63, 0, 64, 5, 1},
	},
	{ // 8
		{37, 1, 38, 6, 1}, {41, 1, 42, 6, 1}, {41, 1, 44, 6, 1}, {41, 1, 46, 6, 1},
		{41, 1, 48, 6, 1}, {41, 1, 49, 1, 1}, {63, 2, 64, 7, 1},
	},
	{ // 9
		{36, 4, 40, 29, 0}, {39, 4, 41, 29, 0}, {39, 4, 42, 29, 0}, {39, 4, 43, 29, 0},
		{43, 4, 45, 4, 1}, {43, 4, 45, 29, 0}, {43, 4, 46, 29, 0}, {43, 4, 47, 4, 0},
		{43, 4, 48, 29, 1}, {43, 4, 49, 4, 1}, {43, 4, 50, 29, 0}, {43, 4, 52, 29, 1},
		{43, 4, 53, 29, 1},
	},
	{ // 10
		{35, 1, 36, 6, 1}, {38, 1, 39, 6, 1}, {38, 1, 40, 1, 1}, {42, 1, 43, 6, 1},
		{42, 1, 45, 6, 1}, {42, 1, 47, 6, 1}, {42, 1, 49, 6, 1}, {42, 1, 50, 1, 1},
	},
	{ // 11
		{36, 4, 37, 4, 1}, {36, 4, 41, 29, 1}, {40, 4, 42, 29, 0}, {40, 4, 43, 29, 0},
		{40, 4, 44, 29, 0}, {44, 4, 46, 4, 1}, {44, 4, 46, 29, 0}, {44, 4, 47, 29, 0},
		{44, 4, 48, 4, 0}, {44, 4, 49, 29, 1}, {44, 4, 50, 4, 1}, {44, 4, 51, 29, 0},
		{44, 4, 53, 29, 1}, {44, 4, 54, 29, 1},
	},
	{ // 12
		{36, 1, 37, 6, 1}, {39, 1, 40, 6, 1}, {39, 1, 41, 1, 1}, {43, 1, 44, 6, 1},
		{43, 1, 46, 6, 1}, {43, 1, 48, 6, 1}, {43, 1, 50, 6, 1}, {43, 1, 51, 1, 1},
	},
	{ // 13
		{35, 3, 39, 28, 0}, {37, 4, 38, 4, 1}, {37, 4, 42, 29, 1}, {41, 4, 43, 29, 0},
		{41, 4, 44, 29, 0}, {41, 4, 45, 29, 0}, {45, 4, 47, 4, 1}, {45, 4, 47, 29, 0},
		{45, 4, 48, 29, 0}, {45, 4, 49, 4, 0}, {45, 4, 50, 29, 1}, {45, 4, 51, 4, 1},
		{45, 4, 52, 29, 0}, {45, 4, 54, 29, 1}, {45, 4, 55, 29, 1},
	},
	{ // 14
		{35, 5, 39, 30, 0}, {37, 1, 37, 6, 0}, {37, 1, 38, 6, 1}, {40, 1, 41, 6, 1},
		{40, 1, 42, 1, 1}, {44, 1, 45, 6, 1}, {44, 1, 47, 6, 1}, {44, 1, 49, 6, 1},
		{44, 1, 51, 6, 1}, {44, 1, 52, 1, 1},
	},
	{ // 15
		{38, 4, 39, 4, 1}, {38, 4, 43, 29, 1}, {42, 4, 44, 29, 0}, {42, 4, 45, 29, 0},
		{42, 4, 46, 29, 0}, {46, 4, 48, 4, 1}, {46, 4, 48, 29, 0}, {46, 4, 49, 29, 0},
		{46, 4, 50, 4, 0}, {46, 4, 51, 29, 1}, {46, 4, 52, 4, 1}, {46, 4, 53, 29, 0},
		{46, 4, 55, 29, 1}, {46, 4, 56, 29, 1},
	},
	{ // 16
		{36, 4, 40, 29, 0}, {41, 4, 43, 29, 0}, {41, 4, 44, 29, 0}, {41, 4, 45, 29, 0},
		{47, 4, 49, 4, 1}, {47, 4, 49, 29, 0}, {47, 4, 50, 29, 0}, {47, 4, 52, 29, 1},
		{47, 4, 53, 29, 1}, {60, 0, 61, 5, 1}, {63, 1, 64, 6, 1},
	},
	{ // 17
		{37, 4, 40, 29, 0}, {37, 4, 41, 29, 0}, {42, 4, 44, 29, 0}, {42, 4, 45, 29, 0},
		{42, 4, 46, 29, 0}, {48, 4, 50, 4, 1}, {48, 4, 50, 29, 0}, {48, 4, 51, 29, 0},
		{48, 4, 53, 29, 1}, {48, 4, 54, 29, 1}, {61, 0, 62, 5, 1},
	},
	{ // 18
		{36, 1, 37, 6, 1}, {41, 1, 42, 6, 1}, {41, 1, 43, 1, 1}, {47, 1, 48, 6, 1},
		{47, 1, 50, 6, 1}, {47, 1, 51, 1, 1}, {61, 2, 62, 7, 1},
	},
	{ // 19
		{35, 3, 39, 28, 0}, {35, 4, 39, 29, 0}, {38, 4, 40, 29, 0}, {38, 4, 41, 29, 0},
		{38, 4, 42, 29, 0}, {43, 4, 45, 29, 0}, {43, 4, 46, 29, 0}, {43, 4, 47, 29, 0},
		{49, 4, 51, 4, 1}, {49, 4, 51, 29, 0}, {49, 4, 52, 29, 0}, {49, 4, 54, 29, 1},
		{49, 4, 55, 29, 1}, {62, 0, 63, 5, 1},
	},
	{ // 20
		{35, 30, 36, 3, 1}, {35, 30, 40, 28, 1}, {36, 4, 40, 29, 0}, {39, 4, 41, 29, 0},
		{39, 4, 42, 29, 0}, {39, 4, 43, 29, 0}, {44, 4, 46, 29, 0}, {44, 4, 47, 29, 0},
		{44, 4, 48, 29, 0}, {50, 4, 52, 4, 1}, {50, 4, 52, 29, 0}, {50, 4, 53, 29, 0},
		{50, 4, 55, 29, 1}, {50, 4, 56, 29, 1}, {63, 0, 64, 5, 1},
	},
	{ // 21
		{36, 30, 37, 3, 1}, {36, 30, 41, 28, 1}, {37, 4, 41, 29, 0}, {40, 4, 42, 29, 0},
		{40, 4, 43, 29, 0}, {40, 4, 44, 29, 0}, {45, 4, 47, 29, 0}, {45, 4, 48, 29, 0},
		{45, 4, 49, 29, 0}, {51, 4, 53, 4, 1}, {51, 4, 53, 29, 0}, {51, 4, 54, 29, 0},
		{51, 4, 56, 29, 1}, {51, 4, 57, 29, 1},
	},
	{ // 22
		{36, 0, 37, 5, 1}, {36, 0, 41, 30, 1}, {39, 1, 40, 6, 1}, {39, 1, 41, 1, 1},
		{44, 1, 45, 6, 1}, {44, 1, 46, 1, 1}, {50, 1, 51, 6, 1}, {50, 1, 53, 6, 1},
		{50, 1, 54, 1, 1},
	},
	{ // 23
		{37, 30, 38, 3, 1}, {37, 30, 42, 28, 1}, {38, 4, 42, 29, 0}, {41, 4, 43, 29, 0},
		{41, 4, 44, 29, 0}, {41, 4, 45, 29, 0}, {46, 4, 48, 29, 0}, {46, 4, 49, 29, 0},
		{46, 4, 50, 29, 0}, {52, 4, 54, 4, 1}, {52, 4, 54, 29, 0}, {52, 4, 55, 29, 0},
		{52, 4, 57, 29, 1}, {52, 4, 58, 29, 1},
	},
	{ // 24
		{37, 0, 38, 5, 1}, {37, 0, 42, 30, 1}, {40, 1, 41, 6, 1}, {40, 1, 42, 1, 1},
		{45, 1, 46, 6, 1}, {45, 1, 47, 1, 1}, {51, 1, 52, 6, 1}, {51, 1, 54, 6, 1},
		{51, 1, 55, 1, 1},
	},
	{ // 25
		{38, 30, 39, 3, 1}, {38, 30, 43, 28, 1}, {39, 4, 43, 29, 0}, {42, 4, 44, 29, 0},
		{42, 4, 45, 29, 0}, {42, 4, 46, 29, 0}, {47, 4, 49, 29, 0}, {47, 4, 50, 29, 0},
		{47, 4, 51, 29, 0}, {53, 4, 55, 4, 1}, {53, 4, 55, 29, 0}, {53, 4, 56, 29, 0},
		{53, 4, 58, 29, 1}, {53, 4, 59, 29, 1},
	},
	{ // 26
		{38, 0, 39, 5, 1}, {38, 0, 43, 30, 1}, {41, 1, 42, 6, 1}, {41, 1, 43, 1, 1},
		{46, 1, 47, 6, 1}, {46, 1, 48, 1, 1}, {52, 1, 53, 6, 1}, {52, 1, 55, 6, 1},
		{52, 1, 56, 1, 1},
	},
	{ // 27
		{36, 4, 38, 4, 1}, {39, 30, 40, 3, 1}, {39, 30, 44, 28, 1}, {40, 4, 44, 29, 0},
		{43, 4, 45, 29, 0}, {43, 4, 46, 29, 0}, {43, 4, 47, 29, 0}, {48, 4, 50, 29, 0},
		{48, 4, 51, 29, 0}, {48, 4, 52, 29, 0}, {54, 4, 56, 4, 1}, {54, 4, 56, 29, 0},
		{54, 4, 57, 29, 0}, {54, 4, 59, 29, 1}, {54, 4, 60, 29, 1},
	},
	{ // 28
		{37, 4, 39, 4, 1}, {37, 4, 40, 29, 0}, {41, 3, 45, 28, 0}, {41, 4, 45, 29, 0},
		{44, 4, 46, 29, 0}, {44, 4, 47, 29, 0}, {44, 4, 48, 29, 0}, {49, 4, 51, 29, 0},
		{49, 4, 52, 29, 0}, {49, 4, 53, 29, 0}, {55, 4, 57, 4, 1}, {55, 4, 57, 29, 0},
		{55, 4, 58, 29, 0}, {55, 4, 61, 29, 1},
	},
	{ // 29
		{36, 4, 38, 4, 1}, {36, 4, 40, 4, 0}, {36, 4, 41, 29, 1}, {42, 3, 46, 28, 0},
		{42, 4, 46, 29, 0}, {45, 4, 47, 29, 0}, {45, 4, 48, 29, 0}, {45, 4, 49, 29, 0},
		{50, 4, 52, 29, 0}, {50, 4, 53, 29, 0}, {50, 4, 54, 29, 0}, {56, 4, 58, 29, 0},
		{56, 4, 59, 29, 0}, {58, 4, 62, 29, 0},
	},
	{ // 30
		{37, 4, 39, 4, 1}, {37, 4, 40, 29, 0}, {37, 4, 41, 4, 0}, {37, 4, 42, 29, 1},
		{43, 3, 47, 28, 0}, {43, 4, 47, 29, 0}, {46, 4, 48, 29, 0}, {46, 4, 49, 29, 0},
		{46, 4, 50, 29, 0}, {51, 4, 53, 29, 0}, {51, 4, 54, 29, 0}, {51, 4, 55, 29, 0},
		{57, 4, 59, 29, 0}, {59, 4, 63, 29, 0},
	},
	{ // 31
		{38, 4, 40, 4, 1}, {38, 4, 40, 29, 0}, {38, 4, 41, 29, 0}, {38, 4, 42, 4, 0},
		{38, 4, 43, 29, 1}, {44, 3, 48, 28, 0}, {44, 4, 48, 29, 0}, {47, 4, 49, 29, 0},
		{47, 4, 50, 29, 0}, {47, 4, 51, 29, 0}, {52, 4, 54, 29, 0}, {52, 4, 55, 29, 0},
		{52, 4, 56, 29, 0}, {60, 4, 64, 29, 0},
	},
}
