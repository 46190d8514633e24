----------------------------- MODULE TrainDefs -----------------------------
(* What a training step does, in counts. doc: the eligible words in order   *)
(* (word ids from 0). lens: the lengths of the consecutive shares (batches  *)
(* or worker shares) the doc is cut into. Matrices are indexed id + 1.      *)
(* K[t][c]: how often the word t was trained with the context word c.       *)
EXTENDS CorpusDefs

Abs(x) == IF x < 0 THEN -x ELSE x
Zero(v) == [i \in 1..v |-> [j \in 1..v |-> 0]]
Inc(m, a, b, x) == [m EXCEPT ![a + 1][b + 1] = @ + x]
SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
SumMat(m) == SumSeq([i \in DOMAIN m |-> SumSeq(m[i])])
AddMat(a, b) == [i \in DOMAIN a |-> [j \in DOMAIN a[i] |-> a[i][j] + b[i][j]]]

\* share number of every position
ShareIds(lens) == FoldLeft(LAMBDA s, k : s \o [i \in 1..lens[k] |-> k], <<>>, [k \in DOMAIN lens |-> k])
StreamLens(n, b) == [k \in 1..((n + b - 1) \div b) |-> Min2(k * b, n) - (k - 1) * b]
Balanced(lens, n, t) == Len(lens) = t /\ SumSeq(lens) = n /\ \A k \in DOMAIN lens : lens[k] \in {n \div t, (n + t - 1) \div t}
\* all balanced cuts of n items into t shares
BalancedLens(n, t) == {[k \in 1..t |-> (n \div t) + (IF k \in S THEN 1 ELSE 0)] : S \in kSubset(n % t, 1..t)}
LensSet(n, mode, b, t) == IF mode = "stream" THEN {StreamLens(n, b)} ELSE BalancedLens(n, t)

\* the positions trained together with position p, at radius r
Near(sh, p, r) == {q \in Max2(1, p - r)..Min2(Len(sh), p + r) : q # p /\ sh[q] = sh[p]}
NearSeq(sh, p, r) == SelectSeq([k \in 1..(2 * r + 1) |-> p - r - 1 + k], LAMBDA q : q >= 1 /\ q <= Len(sh) /\ q # p /\ sh[q] = sh[p])
\* the counts when position p uses radius rad[p], m times; sh has to be a value, not an expression
KOf(doc, sh, rad, v, m) ==
    FoldLeft(LAMBDA k, p : FoldLeft(LAMBDA kk, q : Inc(kk, doc[p], doc[q], m), k, NearSeq(sh, p, rad[p])), Zero(v), [p \in DOMAIN doc |-> p])
KConst(doc, sh, r, v, m) ==
    FoldLeft(LAMBDA k, p : FoldLeft(LAMBDA kk, q : Inc(kk, doc[p], doc[q], m), k, NearSeq(sh, p, r)), Zero(v), [p \in DOMAIN doc |-> p])
\* the same plus its transpose
SharedConst(doc, sh, r, v, m) ==
    FoldLeft(LAMBDA k, p : FoldLeft(LAMBDA kk, q : Inc(Inc(kk, doc[p], doc[q], m), doc[q], doc[p], m), k, NearSeq(sh, p, r)), Zero(v), [p \in DOMAIN doc |-> p])

------------------------------------------------------------------------
(* Is K what m complete iterations over doc may have done?                *)
Distinct(doc) == Cardinality(Range(doc)) = Len(doc)
\* docs of distinct words: every position shows its own radii
RadiiOK(K, doc, sh, w, m) ==
    \A p \in DOMAIN doc :
        LET at(d) == {K[doc[p] + 1][doc[q] + 1] : q \in {x \in {p - d, p + d} : x \in DOMAIN doc /\ sh[x] = sh[p]}} IN
        /\ \A d \in 1..w : Cardinality(at(d)) <= 1
        /\ at(1) \subseteq {m}
        /\ \A d \in 2..w : \A x \in at(d) : x >= 0 /\ \A y \in at(d - 1) : x <= y
\* only pairs inside the window of a share
OnlyNear(K, doc, sh, w) ==
    \A i, j \in DOMAIN K : K[i][j] # 0 => \E p \in {x \in DOMAIN doc : doc[x] = i - 1} : \E q \in Near(sh, p, w) : doc[q] = j - 1
Between(K, lo, hi) == \A i, j \in DOMAIN K : lo[i][j] <= K[i][j] /\ K[i][j] <= hi[i][j]
StepsOK(K, doc, lens, w, m, v) ==
    \E sh \in {ShareIds(lens)} :
        /\ OnlyNear(K, doc, sh, w)
        /\ IF Distinct(doc) THEN RadiiOK(K, doc, sh, w, m)
           ELSE IF w = 1 THEN K = KConst(doc, sh, 1, v, m)
           ELSE /\ \E lo \in {KConst(doc, sh, 1, v, m)} : \E hi \in {KConst(doc, sh, w, v, m)} : Between(K, lo, hi)
                /\ (m = 1 /\ Len(doc) <= 6 /\ w <= 3) => \E rad \in [DOMAIN doc -> 1..w] : K = KOf(doc, sh, rad, v, 1)
\* the cut of a distinct doc can be read off the pairs of neighbours
CutLens(K, doc) ==
    LET n == Len(doc)
        ends == SelectSeq([p \in 1..n |-> p], LAMBDA p : p = n \/ K[doc[p] + 1][doc[p + 1] + 1] = 0)
    IN [k \in DOMAIN ends |-> ends[k] - (IF k = 1 THEN 0 ELSE ends[k - 1])]
CutOK(lens, n, t) ==
    IF n <= t THEN \A k \in DOMAIN lens : lens[k] = 1
    ELSE Balanced(lens, n, t) \/ (n \div t = 1 /\ \A k \in DOMAIN lens : lens[k] \in {1, 2} /\ Len(lens) = t /\ SumSeq(lens) = n)
ItersOK(K, doc, mode, b, t, w, m, v) ==
    IF m = 0 THEN K = Zero(v)
    ELSE IF mode = "mem" /\ Distinct(doc) /\ t > 1
    THEN \E lens \in {CutLens(K, doc)} : CutOK(lens, Len(doc), t) /\ StepsOK(K, doc, lens, w, m, v)
    ELSE \E lens \in LensSet(Len(doc), mode, b, t) : StepsOK(K, doc, lens, w, m, v)

------------------------------------------------------------------------
(* Negative sampling (word2vec): D[t][c] = positive minus negative steps.  *)
(* A: the positive ones.                                                   *)
ColSum(A, j) == SumSeq([i \in DOMAIN A |-> A[i][j]])
\* a unit is known to within a percent, so that sums of many steps can be off by one or more
NegOK(D, A, ns) ==
    \A i, j \in DOMAIN A : LET neg == A[i][j] - D[i][j] slack == (A[i][j] + Abs(D[i][j])) \div 60 IN
        neg >= -slack /\ neg <= ns * (ColSum(A, j) - A[i][j]) + slack
NegTotal(D, A, ns, v) ==
    LET want == ns * SumMat(A) got == SumMat(A) - SumMat(D) IN
    /\ got <= want + want \div 100
    /\ got >= want - 3 * (want \div v) - 20
    \* one draw in v is the target (eight standard deviations; the counts are good to one in a hundred)
    /\ v % 2 = 1 => LET d == want - (want \div v) - (want \div 100) - 20 - got IN d <= 0 \/ (d < 30000 /\ d * d <= 64 * (want \div v))
    \* every word is drawn sooner or later (not so for sizes divisible by 4: the generator's lowest bits have short periods)
    /\ (want > 40 * v /\ v >= 3 /\ (v % 2 = 1 \/ (v % 4 = 2 /\ ns >= 2))) =>
          \A i \in DOMAIN A : want - ns * SumSeq(A[i]) > 40 * v => \E j \in DOMAIN A : A[i][j] - D[i][j] > 0

------------------------------------------------------------------------
(* Learning rate in millionths of the initial rate.                        *)
Ppm(a, b) == LET x == a * 1000 IN (x \div b) * 1000 + ((x % b) * 1000) \div b        \* a <= b < 2000000
RateAt(c, u, len, minppm) == Max2(minppm, IF len = 0 THEN 1000000 ELSE Ppm(len - (c \div u) * u, len))
RateAfter(c, u, len, minppm, carried) == IF c < u THEN carried ELSE RateAt(c, u, len, minppm)

------------------------------------------------------------------------
(* LexVec: S = own-vector pairs, f = co-occurrence values; targets in      *)
(* ten-thousandths.                                                        *)
LogPpm == <<0, 693147, 1098612, 1386294, 1609438, 1791759, 1945910, 2079442, 2197225, 2302585, 2397895, 2484907, 2564949, 2639057, 2708050, 2772589, 2833213, 2890372, 2944439, 2995732, 3044522, 3091042, 3135494, 3178054,
            3218876, 3258097, 3295837, 3332205, 3367296, 3401197, 3433987, 3465736, 3496508, 3526361, 3555348, 3583519, 3610918, 3637586, 3663562, 3688879, 3713572, 3737670, 3761200, 3784190, 3806662, 3828641, 3850148, 3871201,
            3891820, 3912023, 3931826, 3951244, 3970292, 3988984, 4007333, 4025352, 4043051, 4060443, 4077537, 4094345, 4110874, 4127134, 4143135, 4158883, 4174387, 4189655, 4204693, 4219508, 4234107, 4248495, 4262680, 4276666,
            4290459, 4304065, 4317488, 4330733, 4343805, 4356709, 4369448, 4382027, 4394449, 4406719, 4418841, 4430817, 4442651, 4454347, 4465908, 4477337, 4488636, 4499810, 4510860, 4521789, 4532599, 4543295, 4553877, 4564348,
            4574711, 4584967, 4595120, 4605170, 4615121, 4624973, 4634729, 4644391, 4653960, 4663439, 4672829, 4682131, 4691348, 4700480, 4709530, 4718499, 4727388, 4736198, 4744932, 4753590, 4762174, 4770685, 4779123, 4787492,
            4795791, 4804021, 4812184, 4820282, 4828314, 4836282, 4844187, 4852030, 4859812, 4867534, 4875197, 4882802, 4890349, 4897840, 4905275, 4912655, 4919981, 4927254, 4934474, 4941642, 4948760, 4955827, 4962845, 4969813,
            4976734, 4983607, 4990433, 4997212, 5003946, 5010635, 5017280, 5023881, 5030438, 5036953, 5043425, 5049856, 5056246, 5062595, 5068904, 5075174, 5081404, 5087596, 5093750, 5099866, 5105945, 5111988, 5117994, 5123964,
            5129899, 5135798, 5141664, 5147494, 5153292, 5159055, 5164786, 5170484, 5176150, 5181784, 5187386, 5192957, 5198497, 5204007, 5209486, 5214936, 5220356, 5225747, 5231109, 5236442, 5241747, 5247024, 5252273, 5257495,
            5262690, 5267858, 5273000, 5278115, 5283204, 5288267, 5293305, 5298317, 5303305, 5308268, 5313206, 5318120, 5323010, 5327876, 5332719, 5337538, 5342334, 5347108, 5351858, 5356586, 5361292, 5365976, 5370638, 5375278,
            5379897, 5384495, 5389072, 5393628, 5398163, 5402677, 5407172, 5411646, 5416100, 5420535, 5424950, 5429346, 5433722, 5438079, 5442418, 5446737, 5451038, 5455321, 5459586, 5463832, 5468060, 5472271, 5476464, 5480639,
            5484797, 5488938, 5493061, 5497168, 5501258, 5505332, 5509388, 5513429, 5517453, 5521461, 5525453, 5529429, 5533389, 5537334, 5541264, 5545177, 5549076, 5552960, 5556828, 5560682, 5564520, 5568345, 5572154, 5575949,
            5579730, 5583496, 5587249, 5590987, 5594711, 5598422, 5602119, 5605802, 5609472, 5613128, 5616771, 5620401, 5624018, 5627621, 5631212, 5634790, 5638355, 5641907, 5645447, 5648974, 5652489, 5655992, 5659482, 5662960,
            5666427, 5669881, 5673323, 5676754, 5680173, 5683580, 5686975, 5690359, 5693732, 5697093, 5700444, 5703782, 5707110, 5710427, 5713733, 5717028, 5720312, 5723585, 5726848, 5730100, 5733341, 5736572, 5739793, 5743003,
            5746203, 5749393, 5752573, 5755742, 5758902, 5762051, 5765191, 5768321, 5771441, 5774552, 5777652, 5780744, 5783825, 5786897, 5789960, 5793014, 5796058, 5799093, 5802118, 5805135, 5808142, 5811141, 5814131, 5817111,
            5820083, 5823046, 5826000, 5828946, 5831882, 5834811, 5837730, 5840642, 5843544, 5846439, 5849325, 5852202, 5855072, 5857933, 5860786, 5863631, 5866468, 5869297, 5872118, 5874931, 5877736, 5880533, 5883322, 5886104,
            5888878, 5891644, 5894403, 5897154, 5899897, 5902633, 5905362, 5908083, 5910797, 5913503, 5916202, 5918894, 5921578, 5924256, 5926926, 5929589, 5932245, 5934894, 5937536, 5940171, 5942799, 5945421, 5948035, 5950643,
            5953243, 5955837, 5958425, 5961005, 5963579, 5966147, 5968708, 5971262, 5973810, 5976351, 5978886, 5981414, 5983936, 5986452, 5988961, 5991465, 5993961, 5996452, 5998937, 6001415, 6003887, 6006353, 6008813, 6011267,
            6013715, 6016157, 6018593, 6021023, 6023448, 6025866, 6028279, 6030685, 6033086, 6035481, 6037871, 6040255, 6042633, 6045005, 6047372, 6049733, 6052089, 6054439, 6056784, 6059123, 6061457, 6063785, 6066108, 6068426,
            6070738, 6073045, 6075346, 6077642, 6079933, 6082219, 6084499, 6086775, 6089045, 6091310, 6093570, 6095825, 6098074, 6100319, 6102559, 6104793, 6107023, 6109248, 6111467, 6113682, 6115892, 6118097, 6120297, 6122493,
            6124683, 6126869, 6129050, 6131226, 6133398, 6135565, 6137727, 6139885, 6142037, 6144186, 6146329, 6148468, 6150603, 6152733, 6154858, 6156979, 6159095, 6161207, 6163315, 6165418, 6167516, 6169611, 6171701, 6173786,
            6175867, 6177944, 6180017, 6182085, 6184149, 6186209, 6188264, 6190315, 6192362, 6194405, 6196444, 6198479, 6200509, 6202536, 6204558, 6206576, 6208590, 6210600, 6212606, 6214608, 6216606, 6218600, 6220590, 6222576,
            6224558, 6226537, 6228511, 6230481, 6232448, 6234411, 6236370, 6238325, 6240276, 6242223, 6244167, 6246107, 6248043, 6249975, 6251904, 6253829, 6255750, 6257668, 6259581, 6261492, 6263398, 6265301, 6267201, 6269096,
            6270988, 6272877, 6274762, 6276643, 6278521, 6280396, 6282267, 6284134, 6285998, 6287859, 6289716, 6291569, 6293419, 6295266, 6297109, 6298949, 6300786, 6302619, 6304449, 6306275, 6308098, 6309918, 6311735, 6313548,
            6315358, 6317165, 6318968, 6320768, 6322565, 6324359, 6326149, 6327937, 6329721, 6331502, 6333280, 6335054, 6336826, 6338594, 6340359, 6342121, 6343880, 6345636, 6347389, 6349139, 6350886, 6352629, 6354370, 6356108,
            6357842, 6359574, 6361302, 6363028, 6364751, 6366470, 6368187, 6369901, 6371612, 6373320, 6375025, 6376727, 6378426, 6380123, 6381816, 6383507, 6385194, 6386879, 6388561, 6390241, 6391917, 6393591, 6395262, 6396930,
            6398595, 6400257, 6401917, 6403574, 6405228, 6406880, 6408529, 6410175, 6411818, 6413459, 6415097, 6416732, 6418365, 6419995, 6421622, 6423247, 6424869, 6426488, 6428105, 6429719, 6431331, 6432940, 6434547, 6436150,
            6437752, 6439350, 6440947, 6442540, 6444131, 6445720, 6447306, 6448889, 6450470, 6452049, 6453625, 6455199, 6456770, 6458338, 6459904, 6461468, 6463029, 6464588, 6466145, 6467699, 6469250, 6470800, 6472346, 6473891,
            6475433, 6476972, 6478510, 6480045, 6481577, 6483107, 6484635, 6486161, 6487684, 6489205, 6490724, 6492240, 6493754, 6495266, 6496775, 6498282, 6499787, 6501290, 6502790, 6504288, 6505784, 6507278, 6508769, 6510258,
            6511745, 6513230, 6514713, 6516193, 6517671, 6519147, 6520621, 6522093, 6523562, 6525030, 6526495, 6527958, 6529419, 6530878, 6532334, 6533789, 6535241, 6536692, 6538140, 6539586, 6541030, 6542472, 6543912, 6545350,
            6546785, 6548219, 6549651, 6551080, 6552508, 6553933, 6555357, 6556778, 6558198, 6559615, 6561031, 6562444, 6563856, 6565265, 6566672, 6568078, 6569481, 6570883, 6572283, 6573680, 6575076, 6576470, 6577861, 6579251,
            6580639, 6582025, 6583409, 6584791, 6586172, 6587550, 6588926, 6590301, 6591674, 6593045, 6594413, 6595781, 6597146, 6598509, 6599870, 6601230, 6602588, 6603944, 6605298, 6606650, 6608001, 6609349, 6610696, 6612041,
            6613384, 6614726, 6616065, 6617403, 6618739, 6620073, 6621406, 6622736, 6624065, 6625392, 6626718, 6628041, 6629363, 6630683, 6632002, 6633318, 6634633, 6635947, 6637258, 6638568, 6639876, 6641182, 6642487, 6643790,
            6645091, 6646391, 6647688, 6648985, 6650279, 6651572, 6652863, 6654153, 6655440, 6656727, 6658011, 6659294, 6660575, 6661855, 6663133, 6664409, 6665684, 6666957, 6668228, 6669498, 6670766, 6672033, 6673298, 6674561,
            6675823, 6677083, 6678342, 6679599, 6680855, 6682109, 6683361, 6684612, 6685861, 6687109, 6688355, 6689599, 6690842, 6692084, 6693324, 6694562, 6695799, 6697034, 6698268, 6699500, 6700731, 6701960, 6703188, 6704414,
            6705639, 6706862, 6708084, 6709304, 6710523, 6711740, 6712956, 6714171, 6715383, 6716595, 6717805, 6719013, 6720220, 6721426, 6722630, 6723832, 6725034, 6726233, 6727432, 6728629, 6729824, 6731018, 6732211, 6733402,
            6734592, 6735780, 6736967, 6738152, 6739337, 6740519, 6741701, 6742881, 6744059, 6745236, 6746412, 6747587, 6748760, 6749931, 6751101, 6752270, 6753438, 6754604, 6755769, 6756932, 6758095, 6759255, 6760415, 6761573,
            6762730, 6763885, 6765039, 6766192, 6767343, 6768493, 6769642, 6770789, 6771936, 6773080, 6774224, 6775366, 6776507, 6777647, 6778785, 6779922, 6781058, 6782192, 6783325, 6784457, 6785588, 6786717, 6787845, 6788972,
            6790097, 6791221, 6792344, 6793466, 6794587, 6795706, 6796824, 6797940, 6799056, 6800170, 6801283, 6802395, 6803505, 6804615, 6805723, 6806829, 6807935, 6809039, 6810142, 6811244, 6812345, 6813445, 6814543, 6815640,
            6816736, 6817831, 6818924, 6820016, 6821107, 6822197, 6823286, 6824374, 6825460, 6826545, 6827629, 6828712, 6829794, 6830874, 6831954, 6833032, 6834109, 6835185, 6836259, 6837333, 6838405, 6839476, 6840547, 6841615,
            6842683, 6843750, 6844815, 6845880, 6846943, 6848005, 6849066, 6850126, 6851185, 6852243, 6853299, 6854355, 6855409, 6856462, 6857514, 6858565, 6859615, 6860664, 6861711, 6862758, 6863803, 6864848, 6865891, 6866933,
            6867974, 6869014, 6870053, 6871091, 6872128, 6873164, 6874198, 6875232, 6876265, 6877296, 6878326, 6879356, 6880384, 6881411, 6882437, 6883463, 6884487, 6885510, 6886532, 6887553, 6888572, 6889591, 6890609, 6891626,
            6892642, 6893656, 6894670, 6895683, 6896694, 6897705, 6898715, 6899723, 6900731, 6901737, 6902743, 6903747, 6904751, 6905753, 6906755, 6907755, 6908755, 6909753, 6910751, 6911747, 6912743, 6913737, 6914731, 6915723,
            6916715, 6917706, 6918695, 6919684, 6920672, 6921658, 6922644, 6923629, 6924612, 6925595, 6926577, 6927558, 6928538, 6929517, 6930495, 6931472>>
Log4(k) == (LogPpm[k] + 50) \div 100
\* q: smoothing in quarters, applied to the number of words and to the frequency fb
LexTarget(rel, f, fa, fb, n, q) ==
    CASE rel = "co" -> f * 10000
      [] f = 0 -> 0
      [] rel = "logco" -> Log4(f)
      [] rel = "pmi" -> Log4(f) - Log4(fa) + (q * (Log4(n) - Log4(fb))) \div 4
      [] rel = "ppmi" -> Max2(0, Log4(f) - Log4(fa) + (q * (Log4(n) - Log4(fb))) \div 4)
\* the relation of a pair does not depend on its order: the smoothed one is always the later word, or always the earlier one
PairTarget(rel, f, x, y, freq, n, q, later) ==
    LET s == IF later THEN Max2(x, y) ELSE Min2(x, y) IN LexTarget(rel, f, freq[x + y - s], freq[s], n, q)

\* the trained pairs: S[x][y] is n times the target T[x][y], n: how often x and y were trained with each other
Close(a, b, n) == Abs(a - b) <= 40 * n + 30 + Abs(b) \div 100
SharedOf(doc, sh, rad, v) ==
    FoldLeft(LAMBDA k, p : FoldLeft(LAMBDA kk, q : Inc(Inc(kk, doc[p], doc[q], 1), doc[q], doc[p], 1), k, NearSeq(sh, p, rad[p])), Zero(v), [p \in DOMAIN doc |-> p])
\* distinct words: the possible radii of the last positions, position by position; two positions of a share at distance d
\* were trained with each other as often as one of their radii reaches d
Radii(S, T, doc, sh, w) ==
    LET Fits(c, r, k) == \A d \in 1..Len(c) :
            LET x == doc[k - d] + 1 y == doc[k] + 1 n == (IF c[Len(c) + 1 - d] >= d THEN 1 ELSE 0) + (IF r >= d THEN 1 ELSE 0)
            IN Close(S[x][y], n * T[x][y], n) /\ Close(S[y][x], n * T[y][x], n)
        Near_(c, k) == IF k > 1 /\ sh[k - 1] # sh[k] THEN <<>> ELSE IF Len(c) >= w THEN Tail(c) ELSE c
    IN FoldLeft(LAMBDA cand, k : UNION {LET c == Near_(c0, k) IN {Append(c, r) : r \in {r \in 1..w : Fits(c, r, k)}} : c0 \in cand}, {<<>>}, [p \in DOMAIN doc |-> p])
PairsOK(S, T, doc, sh, w, m, v) ==
    /\ \E lo \in {SharedConst(doc, sh, 1, v, m)} : \E hi \in {IF w = 1 THEN lo ELSE SharedConst(doc, sh, w, v, m)} :
          \A x, y \in 1..v : \E n \in lo[x][y]..hi[x][y] : Close(S[x][y], n * T[x][y], n)
    /\ (w > 1 /\ m = 1 /\ Len(doc) <= 6 /\ w <= 3) =>
          \E rad \in [DOMAIN doc -> 1..w] : \E n \in {SharedOf(doc, sh, rad, v)} : \A x, y \in 1..v : Close(S[x][y], n[x][y] * T[x][y], n[x][y])
    /\ (w > 1 /\ m = 1 /\ Len(doc) > 6 /\ w <= 6 /\ Cardinality({doc[p] : p \in DOMAIN doc}) = Len(doc)) => Radii(S, T, doc, sh, w) # {}
\* how many draws of y from x the change shows: only visible when the target is not close to zero
Visible(t) == Abs(t) >= 2000
DrawsOf(t, b) == IF ~Visible(t) THEN 0 ELSE LET a == Abs(t) v == (IF t < 0 THEN -1 ELSE 1) * b IN (2 * v + a) \div (2 * a)
DrawsOK(B, Bt, T, freq, doc, sh, w, m, ns, v) ==
    \E n \in {[x \in 1..v |-> [y \in 1..v |-> DrawsOf(T[x][y], B[x][y])]]} : \E A \in {KConst(doc, sh, 1, v, m)} :
        /\ \A x, y \in 1..v :
              IF Visible(T[x][y]) THEN n[x][y] >= 0 /\ Close(B[x][y], n[x][y] * T[x][y], n[x][y] + 3) /\ Close(Bt[x][y], n[x][y] * T[x][y], n[x][y] + 3)
              ELSE \E top \in {(Abs(T[x][y]) + 40) * ns * 2 * w * m * freq[x] + 30} : Abs(B[x][y]) <= top /\ Abs(Bt[x][y]) <= top
        /\ w = 1 => \A x \in {doc[p] + 1 : p \in DOMAIN doc} :
              \E got \in {SumSeq(n[x])}, want \in {ns * SumSeq(A[x])} : IF \A y \in 1..v : Visible(T[x][y]) THEN got = want ELSE got <= want
LexOK(S, B, Bt, T, freq, doc, lens, w, m, ns, v) ==
    \E sh \in {ShareIds(lens)} :
        /\ PairsOK(S, T, doc, sh, w, m, v)
        /\ IF ns = 0 THEN \A x, y \in 1..v : B[x][y] = 0 /\ Bt[x][y] = 0 ELSE DrawsOK(B, Bt, T, freq, doc, sh, w, m, ns, v)

------------------------------------------------------------------------
(* Hierarchical softmax. path[t + 1]: the nodes of the word's path, as     *)
(* <<node, code>>; only the first depth nodes when depth is positive.      *)
(* node vectors are written as integer combinations of the initial word    *)
(* vectors; a step adds half the (signed) rate. h: change of the word      *)
(* vectors in quarter squared rates; habs: the same without cancellation.  *)
CutPath(path, depth) == IF depth > 0 /\ depth < Len(path) THEN SubSeq(path, 1, depth) ELSE path
HStep(st, target, ctxs, paths, depth) ==
    LET path == CutPath(paths[target + 1], depth) IN
    IF Len(path) < 2 \/ ctxs = <<>> THEN st
    ELSE LET one(acc, i) ==
               LET x == path[i][1] s == 1 - 2 * path[i + 1][2] IN
               [h |-> [j \in DOMAIN acc.h |-> acc.h[j] + s * st.node[x][j]],
                a |-> [j \in DOMAIN acc.a |-> acc.a[j] + st.nabs[x][j]],
                node |-> [acc.node EXCEPT ![x] = FoldLeft(LAMBDA r, c : [r EXCEPT ![c + 1] = @ + s], @, ctxs)],
                nabs |-> [acc.nabs EXCEPT ![x] = FoldLeft(LAMBDA r, c : [r EXCEPT ![c + 1] = @ + 1], @, ctxs)]]
             z == [j \in DOMAIN st.node[1] |-> 0]
         IN \* the whole path sees the same context; nodes on a path are different
            CHOOSE r \in {FoldLeft(one, [h |-> z, a |-> z, node |-> st.node, nabs |-> st.nabs], [i \in 1..(Len(path) - 1) |-> i])} : TRUE
HApply(st, r, ctxs) ==
    [node |-> r.node, nabs |-> r.nabs,
     h |-> FoldLeft(LAMBDA m, c : [m EXCEPT ![c + 1] = [j \in DOMAIN @ |-> @[j] + r.h[j]]], st.h, ctxs),
     habs |-> FoldLeft(LAMBDA m, c : [m EXCEPT ![c + 1] = [j \in DOMAIN @ |-> @[j] + r.a[j]]], st.habs, ctxs)]
HTrain(st, target, ctxs, paths, depth) ==
    IF Len(CutPath(paths[target + 1], depth)) < 2 \/ ctxs = <<>> THEN st
    ELSE CHOOSE s \in {HApply(st, r, ctxs) : r \in {HStep(st, target, ctxs, paths, depth)}} : TRUE
\* one pass at radius 1
HPass(st, kind, doc, sh, paths, depth) ==
    FoldLeft(LAMBDA s, p :
               IF kind = "cbow" THEN HTrain(s, doc[p], [k \in DOMAIN NearSeq(sh, p, 1) |-> doc[NearSeq(sh, p, 1)[k]]], paths, depth)
               ELSE FoldLeft(LAMBDA ss, q : HTrain(ss, doc[p], <<doc[q]>>, paths, depth), s, NearSeq(sh, p, 1)),
             st, [p \in DOMAIN doc |-> p])
HInit(v, nodes) == [node |-> [i \in 1..nodes |-> [j \in 1..v |-> 0]], nabs |-> [i \in 1..nodes |-> [j \in 1..v |-> 0]], h |-> Zero(v), habs |-> Zero(v)]
HAll(kind, doc, sh, paths, depth, v, nodes, iters) ==
    FoldLeft(LAMBDA s, i : HPass(s, kind, doc, sh, paths, depth), HInit(v, nodes), [i \in 1..iters |-> i])
=============================================================================
