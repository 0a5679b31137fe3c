package ref

// Conds is the published list of unavoidable bit conditions (UBC data set 3565 of
// sha1collisiondetection), written as data: for disturbance vector i every entry
// {A, a, B, b, v} demands  bit a of W[A]  XOR  bit b of W[B]  ==  v.
// It is frozen here: no check derives it from /repo at run time.
var Conds = [32][]Cond{
	{ // 0: I(43,0)
		{46, 29, 47, 29, 0},
		{43, 4, 46, 29, 0},
		{41, 4, 44, 29, 0},
		{39, 4, 42, 29, 0},
		{37, 4, 40, 29, 0},
		{44, 29, 46, 29, 1},
		{39, 4, 41, 4, 1},
		{37, 4, 39, 4, 1},
		{61, 1, 62, 6, 1},
		{59, 5, 63, 30, 0},
		{58, 0, 63, 30, 1},
	},
	{ // 1: I(44,0)
		{47, 29, 48, 29, 0},
		{44, 4, 47, 29, 0},
		{42, 4, 45, 29, 0},
		{40, 29, 41, 29, 0},
		{40, 4, 43, 29, 0},
		{38, 4, 41, 29, 0},
		{45, 29, 47, 29, 1},
		{40, 4, 42, 4, 1},
		{38, 4, 40, 4, 1},
		{62, 1, 63, 6, 1},
		{60, 5, 64, 30, 0},
		{59, 0, 64, 30, 1},
	},
	{ // 2: I(45,0)
		{48, 29, 49, 29, 0},
		{45, 4, 48, 29, 0},
		{43, 4, 46, 29, 0},
		{41, 4, 44, 29, 0},
		{41, 29, 42, 29, 0},
		{39, 4, 42, 29, 0},
		{46, 29, 48, 29, 1},
		{44, 29, 46, 29, 1},
		{39, 4, 41, 4, 1},
		{35, 4, 39, 29, 0},
		{63, 1, 64, 6, 1},
		{60, 0, 61, 5, 1},
	},
	{ // 3: I(46,0)
		{49, 29, 50, 29, 0},
		{46, 4, 49, 29, 0},
		{44, 4, 47, 29, 0},
		{42, 4, 45, 29, 0},
		{42, 29, 43, 29, 0},
		{40, 4, 43, 29, 0},
		{36, 4, 40, 29, 0},
		{47, 29, 49, 29, 1},
		{45, 29, 47, 29, 1},
		{40, 4, 42, 4, 1},
		{61, 0, 62, 5, 1},
	},
	{ // 4: I(46,2)
		{44, 6, 46, 6, 0},
		{39, 1, 40, 6, 1},
		{61, 2, 62, 7, 1},
		{47, 1, 46, 6, 0},
		{42, 6, 44, 6, 0},
		{35, 1, 36, 6, 1},
		{40, 6, 42, 6, 0},
	},
	{ // 5: I(47,0)
		{47, 4, 50, 29, 0},
		{45, 4, 48, 29, 0},
		{43, 4, 46, 29, 0},
		{43, 29, 44, 29, 0},
		{41, 4, 44, 29, 0},
		{40, 29, 41, 29, 0},
		{50, 29, 51, 29, 0},
		{37, 4, 40, 29, 0},
		{48, 29, 50, 29, 1},
		{46, 29, 48, 29, 1},
		{44, 29, 46, 29, 1},
		{62, 0, 63, 5, 1},
	},
	{ // 6: I(47,2)
		{45, 6, 47, 6, 0},
		{40, 1, 41, 6, 1},
		{36, 1, 37, 6, 1},
		{48, 1, 47, 6, 0},
		{43, 6, 45, 6, 0},
		{62, 2, 63, 7, 1},
		{41, 6, 43, 6, 0},
	},
	{ // 7: I(48,0)
		{44, 29, 45, 29, 0},
		{46, 4, 49, 29, 0},
		{44, 4, 47, 29, 0},
		{42, 4, 45, 29, 0},
		{40, 29, 41, 29, 0},
		{48, 4, 51, 29, 0},
		{41, 29, 42, 29, 0},
		{38, 4, 41, 29, 0},
		{51, 29, 52, 29, 0},
		{49, 29, 51, 29, 1},
		{47, 29, 49, 29, 1},
		{45, 29, 47, 29, 1},
		{35, 4, 39, 29, 0},
		{63, 0, 64, 5, 1},
	},
	{ // 8: I(48,2)
		{44, 6, 46, 6, 0},
		{41, 1, 42, 6, 1},
		{46, 6, 48, 6, 0},
		{42, 6, 44, 6, 0},
		{37, 1, 38, 6, 1},
		{63, 2, 64, 7, 1},
		{48, 6, 49, 1, 0},
	},
	{ // 9: I(49,0)
		{47, 4, 50, 29, 0},
		{45, 4, 48, 29, 0},
		{45, 29, 46, 29, 0},
		{43, 4, 46, 29, 0},
		{52, 29, 53, 29, 0},
		{49, 4, 52, 29, 0},
		{42, 29, 43, 29, 0},
		{41, 29, 42, 29, 0},
		{39, 4, 42, 29, 0},
		{36, 4, 40, 29, 0},
		{50, 29, 52, 29, 1},
		{48, 29, 50, 29, 1},
		{46, 29, 48, 29, 1},
	},
	{ // 10: I(49,2)
		{45, 6, 47, 6, 0},
		{47, 6, 49, 6, 0},
		{43, 6, 45, 6, 0},
		{35, 1, 36, 6, 1},
		{49, 6, 50, 1, 0},
		{42, 1, 50, 1, 1},
		{39, 6, 40, 1, 0},
		{38, 1, 40, 1, 1},
	},
	{ // 11: I(50,0)
		{46, 4, 49, 29, 0},
		{46, 29, 47, 29, 0},
		{44, 4, 47, 29, 0},
		{43, 29, 44, 29, 0},
		{53, 29, 54, 29, 0},
		{50, 4, 53, 29, 0},
		{48, 4, 51, 29, 0},
		{42, 29, 43, 29, 0},
		{40, 4, 43, 29, 0},
		{51, 29, 54, 29, 1},
		{49, 29, 51, 29, 1},
		{47, 29, 49, 29, 1},
		{37, 4, 41, 29, 0},
		{36, 4, 37, 4, 1},
	},
	{ // 12: I(50,2)
		{44, 6, 46, 6, 0},
		{39, 1, 40, 6, 1},
		{36, 1, 37, 6, 1},
		{51, 1, 50, 6, 0},
		{48, 6, 50, 6, 0},
		{46, 6, 48, 6, 0},
		{41, 1, 40, 6, 0},
		{43, 1, 51, 1, 1},
	},
	{ // 13: I(51,0)
		{44, 29, 45, 29, 0},
		{47, 4, 50, 29, 0},
		{47, 29, 48, 29, 0},
		{45, 4, 48, 29, 0},
		{43, 29, 44, 29, 0},
		{41, 4, 44, 29, 0},
		{54, 29, 55, 29, 0},
		{49, 4, 52, 29, 0},
		{51, 4, 54, 29, 0},
		{50, 29, 52, 29, 1},
		{48, 29, 50, 29, 1},
		{48, 29, 55, 29, 1},
		{38, 4, 42, 29, 0},
		{35, 3, 39, 28, 0},
		{37, 4, 38, 4, 1},
	},
	{ // 14: I(51,2)
		{45, 6, 47, 6, 0},
		{40, 1, 41, 6, 1},
		{47, 6, 49, 6, 0},
		{44, 1, 45, 6, 1},
		{42, 1, 41, 6, 0},
		{37, 1, 38, 6, 1},
		{51, 6, 52, 1, 0},
		{49, 6, 51, 6, 0},
		{37, 1, 37, 6, 0},
		{35, 5, 39, 30, 0},
	},
	{ // 15: I(52,0)
		{44, 29, 45, 29, 0},
		{48, 29, 49, 29, 0},
		{46, 4, 49, 29, 0},
		{45, 29, 46, 29, 0},
		{42, 4, 45, 29, 0},
		{50, 4, 53, 29, 0},
		{48, 4, 51, 29, 0},
		{55, 29, 56, 29, 0},
		{52, 4, 55, 29, 0},
		{53, 29, 56, 29, 1},
		{49, 29, 51, 29, 1},
		{48, 29, 55, 29, 1},
		{39, 4, 43, 29, 0},
		{38, 4, 39, 4, 1},
	},
	{ // 16: II(45,0)
		{44, 29, 45, 29, 0},
		{49, 29, 50, 29, 0},
		{47, 4, 50, 29, 0},
		{43, 29, 44, 29, 0},
		{41, 4, 44, 29, 0},
		{52, 29, 53, 29, 0},
		{49, 4, 52, 29, 0},
		{36, 4, 40, 29, 0},
		{50, 29, 52, 29, 1},
		{63, 1, 64, 6, 1},
		{60, 0, 61, 5, 1},
	},
	{ // 17: II(46,0)
		{44, 29, 45, 29, 0},
		{45, 29, 46, 29, 0},
		{42, 4, 45, 29, 0},
		{40, 29, 41, 29, 0},
		{53, 29, 54, 29, 0},
		{50, 4, 53, 29, 0},
		{50, 29, 51, 29, 0},
		{48, 4, 51, 29, 0},
		{37, 4, 40, 29, 0},
		{51, 29, 54, 29, 1},
		{61, 0, 62, 5, 1},
	},
	{ // 18: II(46,2)
		{41, 1, 42, 6, 1},
		{36, 1, 37, 6, 1},
		{61, 2, 62, 7, 1},
		{51, 1, 50, 6, 0},
		{48, 6, 50, 6, 0},
		{43, 1, 42, 6, 0},
		{47, 1, 51, 1, 1},
	},
	{ // 19: II(47,0)
		{46, 29, 47, 29, 0},
		{45, 29, 46, 29, 0},
		{43, 4, 46, 29, 0},
		{40, 29, 41, 29, 0},
		{54, 29, 55, 29, 0},
		{49, 4, 52, 29, 0},
		{41, 29, 42, 29, 0},
		{38, 4, 41, 29, 0},
		{51, 4, 54, 29, 0},
		{51, 29, 52, 29, 0},
		{51, 29, 54, 29, 1},
		{35, 4, 39, 29, 0},
		{62, 0, 63, 5, 1},
		{35, 3, 39, 28, 0},
	},
	{ // 20: II(48,0)
		{47, 29, 48, 29, 0},
		{46, 29, 47, 29, 0},
		{44, 4, 47, 29, 0},
		{52, 29, 53, 29, 0},
		{50, 4, 53, 29, 0},
		{42, 29, 43, 29, 0},
		{41, 29, 42, 29, 0},
		{39, 4, 42, 29, 0},
		{55, 29, 56, 29, 0},
		{52, 4, 55, 29, 0},
		{36, 4, 40, 29, 0},
		{53, 29, 56, 29, 1},
		{63, 0, 64, 5, 1},
		{36, 3, 40, 28, 0},
		{35, 30, 40, 28, 1},
	},
	{ // 21: II(49,0)
		{48, 29, 49, 29, 0},
		{47, 29, 48, 29, 0},
		{45, 4, 48, 29, 0},
		{43, 29, 44, 29, 0},
		{53, 29, 54, 29, 0},
		{42, 29, 43, 29, 0},
		{40, 4, 43, 29, 0},
		{51, 4, 54, 29, 0},
		{53, 29, 56, 29, 1},
		{56, 29, 57, 29, 0},
		{53, 4, 56, 29, 0},
		{37, 4, 41, 29, 0},
		{37, 3, 41, 28, 0},
		{36, 30, 41, 28, 1},
	},
	{ // 22: II(49,2)
		{39, 1, 40, 6, 1},
		{44, 1, 45, 6, 1},
		{41, 1, 40, 6, 0},
		{53, 6, 54, 1, 0},
		{51, 6, 53, 6, 0},
		{50, 1, 54, 1, 1},
		{45, 6, 46, 1, 0},
		{37, 5, 41, 30, 0},
		{36, 0, 41, 30, 1},
	},
	{ // 23: II(50,0)
		{44, 29, 45, 29, 0},
		{49, 29, 50, 29, 0},
		{48, 29, 49, 29, 0},
		{46, 4, 49, 29, 0},
		{43, 29, 44, 29, 0},
		{41, 4, 44, 29, 0},
		{54, 29, 55, 29, 0},
		{52, 4, 55, 29, 0},
		{57, 29, 58, 29, 0},
		{54, 4, 57, 29, 0},
		{38, 4, 42, 29, 0},
		{55, 29, 58, 29, 1},
		{38, 3, 42, 28, 0},
		{37, 30, 42, 28, 1},
	},
	{ // 24: II(50,2)
		{40, 1, 41, 6, 1},
		{47, 1, 46, 6, 0},
		{42, 1, 41, 6, 0},
		{54, 6, 55, 1, 0},
		{52, 6, 54, 6, 0},
		{51, 1, 55, 1, 1},
		{45, 1, 47, 1, 1},
		{38, 5, 42, 30, 0},
		{37, 0, 42, 30, 1},
	},
	{ // 25: II(51,0)
		{44, 29, 45, 29, 0},
		{49, 29, 50, 29, 0},
		{47, 4, 50, 29, 0},
		{45, 29, 46, 29, 0},
		{42, 4, 45, 29, 0},
		{50, 29, 51, 29, 0},
		{55, 29, 56, 29, 0},
		{58, 29, 59, 29, 0},
		{56, 29, 59, 29, 1},
		{55, 4, 58, 29, 0},
		{53, 4, 56, 29, 0},
		{39, 4, 43, 29, 0},
		{39, 3, 43, 28, 0},
		{38, 30, 43, 28, 1},
	},
	{ // 26: II(51,2)
		{41, 1, 42, 6, 1},
		{48, 1, 47, 6, 0},
		{43, 1, 42, 6, 0},
		{55, 6, 56, 1, 0},
		{53, 6, 55, 6, 0},
		{52, 1, 56, 1, 1},
		{46, 1, 48, 1, 1},
		{39, 5, 43, 30, 0},
		{38, 0, 43, 30, 1},
	},
	{ // 27: II(52,0)
		{46, 29, 47, 29, 0},
		{45, 29, 46, 29, 0},
		{43, 4, 46, 29, 0},
		{50, 29, 51, 29, 0},
		{48, 4, 51, 29, 0},
		{51, 29, 52, 29, 0},
		{56, 4, 59, 29, 0},
		{56, 29, 59, 29, 1},
		{56, 29, 57, 29, 0},
		{54, 4, 57, 29, 0},
		{36, 4, 38, 4, 1},
		{59, 29, 60, 29, 0},
		{40, 3, 44, 28, 0},
		{40, 4, 44, 29, 0},
		{39, 30, 44, 28, 1},
	},
	{ // 28: II(53,0)
		{47, 29, 48, 29, 0},
		{46, 29, 47, 29, 0},
		{44, 4, 47, 29, 0},
		{52, 29, 53, 29, 0},
		{49, 4, 52, 29, 0},
		{37, 4, 40, 29, 0},
		{51, 29, 52, 29, 0},
		{37, 4, 39, 4, 1},
		{57, 29, 58, 29, 0},
		{55, 4, 58, 29, 0},
		{58, 29, 61, 29, 1},
		{57, 4, 61, 29, 0},
		{41, 3, 45, 28, 0},
		{41, 4, 45, 29, 0},
	},
	{ // 29: II(54,0)
		{48, 29, 49, 29, 0},
		{47, 29, 48, 29, 0},
		{45, 4, 48, 29, 0},
		{53, 29, 54, 29, 0},
		{52, 29, 53, 29, 0},
		{50, 4, 53, 29, 0},
		{38, 4, 41, 29, 0},
		{38, 4, 40, 4, 1},
		{58, 29, 59, 29, 0},
		{56, 4, 59, 29, 0},
		{36, 4, 38, 4, 1},
		{58, 4, 62, 29, 0},
		{42, 3, 46, 28, 0},
		{42, 4, 46, 29, 0},
	},
	{ // 30: II(55,0)
		{49, 29, 50, 29, 0},
		{48, 29, 49, 29, 0},
		{46, 4, 49, 29, 0},
		{54, 29, 55, 29, 0},
		{53, 29, 54, 29, 0},
		{39, 4, 42, 29, 0},
		{37, 4, 40, 29, 0},
		{51, 4, 54, 29, 0},
		{39, 4, 41, 4, 1},
		{37, 4, 39, 4, 1},
		{59, 4, 63, 29, 0},
		{57, 4, 59, 29, 0},
		{43, 3, 47, 28, 0},
		{43, 4, 47, 29, 0},
	},
	{ // 31: II(56,0)
		{49, 29, 50, 29, 0},
		{47, 4, 50, 29, 0},
		{40, 29, 41, 29, 0},
		{54, 29, 55, 29, 0},
		{50, 29, 51, 29, 0},
		{40, 4, 43, 29, 0},
		{38, 4, 41, 29, 0},
		{55, 29, 56, 29, 0},
		{52, 4, 55, 29, 0},
		{40, 4, 42, 4, 1},
		{38, 4, 40, 4, 1},
		{60, 4, 64, 29, 0},
		{44, 3, 48, 28, 0},
		{44, 4, 48, 29, 0},
	},
}
