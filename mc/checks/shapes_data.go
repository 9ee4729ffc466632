package checks

// Written by "mc shapes".

var shapeData_ = map[string][]uint32{
	"digest":          {45, 234, 4457, 5926, 7192, 7334, 7495, 12359, 16275, 17117, 22214, 23108, 33828, 36418, 38278, 45232, 46375, 48740, 51702, 61793, 65075, 80140, 87902, 91665, 113866, 140900, 200075, 242944, 244153, 250801, 344828, 1759093, 3002965, 3605109, 4597078, 7245223, 17597223, 27065577},
	"txid":            {268, 334, 9668, 12893, 13200, 13756, 13985, 18010, 19054, 20454, 20477, 21362, 21648, 30547, 44125, 58214, 70127, 72138, 80129, 84615, 89721, 110400, 112969, 120775, 121585, 133412, 147984, 165733, 195714, 217102, 958984, 2753662, 3950389, 7763986, 12407001, 36860114, 41774433, 73820044},
	"signature":       {174, 487, 1221, 3143, 13427, 37334, 48876, 96563, 103650, 141648, 163717, 168238},
	"x":               {161, 549, 667, 3001, 4132, 7205, 17051, 17511, 20014, 24491, 25787, 25960, 27909, 34988, 42780, 50296, 65175, 69043, 69670, 70415, 87716, 88301, 93090, 103118, 115589, 127768, 171180, 218900, 219296, 290726, 1735327, 3577120},
	"y":               {86, 169, 2243, 4297, 4315, 18160, 18427, 25907, 26130, 27503, 39743, 41836, 49041, 49530, 50933, 66736, 75750, 76435, 87918, 93406, 97164, 123293, 125122, 138262, 139582, 142524, 179108, 219530, 319984},
	"key hash":        {720, 731, 807, 7089, 9585, 13856, 14730, 15096, 20638, 21763, 23204, 23338, 24851, 40925, 41835, 46792, 49309, 50644, 52819, 56261, 67615, 76331, 81645, 92956, 108103, 109995, 110023, 134120, 136486, 145402, 288695},
	"main checksum":   {0, 333, 2070, 5399, 8890, 10167, 13590, 19158, 19685, 22003, 23494, 28182, 29065, 32977, 41525, 43253, 46647, 53905, 79173, 79936, 86108, 89563, 90944, 93631, 111287, 122017, 170371, 217147, 423580, 5479035, 15296077, 17921971, 24916571, 39622144},
	"test checksum":   {124, 234, 598, 1539, 5831, 9459, 11259, 11461, 12469, 16888, 24664, 35376, 36624, 39877, 40035, 41638, 44794, 47191, 49812, 58167, 59544, 77560, 79230, 81818, 85277, 99126, 142567, 146855, 343266, 2179833, 14316970, 15116609, 37383642, 98429223},
	"bip276 checksum": {72, 82, 609, 3108, 4686, 5104, 11766, 13990, 14489, 15570, 21467, 24097, 26543, 31015, 33036, 37681, 44243, 52120, 53048, 74611, 76981, 84066, 84581, 99419, 106201, 120907, 128576, 148753, 154406, 885753, 3081550, 14308181, 28059665},
	"node":            {810, 861, 898, 1860, 4681, 6116, 15034, 16758, 18598, 24248, 26523, 27088, 28209, 30927, 43905, 47817, 66961, 80526, 85876, 104482, 110899, 112660, 123952, 149245, 150493, 162507, 166755, 259028, 405846, 420853, 644761, 647579, 3503695, 7279376, 7777117, 11393619, 13739831, 20103538},
	"sha256":          {50, 57, 4764, 12209, 18428, 20639, 21990, 22976, 23700, 27317, 30889, 34657, 35859, 39798, 41091, 48432, 50874, 51717, 53393, 56376, 67871, 68860, 75422, 85465, 93161, 104727, 119798, 127978, 215078, 268066, 2221475, 3031378, 4238485, 5347454, 14433751, 18431590, 19188254, 26632638},
	"sha256d":         {72, 512, 2266, 8589, 8841, 8932, 10357, 11122, 22153, 22520, 25168, 27899, 28641, 28643, 37002, 43241, 46552, 50190, 58707, 59980, 64354, 65409, 84905, 101478, 108431, 125616, 140215, 151227, 196506, 342234, 1003522, 1296656, 4742802, 12422125, 37095007, 38125791, 63442652, 91953119},
	"ripemd160":       {11, 200, 1078, 4008, 5298, 13431, 15100, 17053, 18860, 25659, 26026, 27632, 27812, 34791, 38483, 42616, 43089, 45473, 49195, 53097, 62710, 63695, 75223, 82340, 83143, 98744, 121427, 124672, 155365, 220412, 5014088, 9309054, 9702872, 10220941, 16883028, 33050435, 46921489, 48049790},
	"hash160":         {292, 1236, 1360, 4052, 5559, 6088, 11240, 11758, 14878, 18209, 20471, 23608, 23665, 27389, 27770, 29088, 36135, 39209, 53227, 58950, 63326, 69745, 78902, 78946, 85779, 98535, 106702, 126153, 145617, 181189, 212880, 3748429, 5660950, 8819436, 10384479, 15629696, 19976280, 43039281},
	"script hash":     {43, 493, 2533, 2689, 4034, 7578, 16569, 19167, 21359, 23988, 27595, 28570, 33857, 38746, 43394, 45421, 47497, 49180, 55044, 71245, 74045, 87980, 98077, 111860, 113073, 131753, 145487, 153470, 167205, 172630},
}
