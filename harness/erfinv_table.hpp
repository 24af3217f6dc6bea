// written by tools/mkerfinv.py
#pragma once
struct Segment
{
    double from, to, centre, c[9];
};
// erfinv(x)
static const Segment middle[] = {
    { 0.0, 0.25, 0.125, { 0.11123545184094996, 0.8972606206144215, 0.08955306157339031, 0.25270545352281104, 0.08589760038480482, 0.15799892837785234, 0.08711428967698155, 0.13178949956740707, 0.09511319743580654 } },
    { 0.25, 0.4375, 0.34375, { 0.31473077109982617, 0.978507546694315, 0.3013474802618708, 0.4360398266362326, 0.39378437224541213, 0.5097953355464266, 0.6022950538173755, 0.8152349401448696, 1.0575492939158806 } },
    { 0.4375, 0.5625, 0.5, { 0.4769362762044699, 1.1125848188432572, 0.5903731747679049, 0.8767641954030475, 1.1850528653932733, 1.8688357361423404, 3.016094625263862, 5.212825955093376, 8.967287140707445 } },
    { 0.5625, 0.65625, 0.609375, { 0.6070401932090569, 1.281095483574202, 0.9962777875249071, 1.733890106923703, 3.1126735122573392, 6.202955376688592, 12.89146388460865, 28.430082874626418, 62.6747469239384 } },
    { 0.65625, 0.71875, 0.6875, { 0.7141708976081284, 1.4758850346381602, 1.5556332131317518, 3.2578634149550356, 7.409874292233254, 18.414698227098068, 47.924015361684134, 131.16554958064873, 361.58457977872905 } },
    { 0.71875, 0.78125, 0.75, { 0.8134198475976185, 1.717499769128873, 2.399430305058304, 6.158260347259558, 17.62365482887087, 54.73455545219254, 178.2424172819853, 616.1900798400517, 2125.1722626455435 } },
    { 0.78125, 0.8125, 0.796875, { 0.8999338395927327, 1.9919193631684988, 3.5707059669481773, 11.168917454660088, 39.477124787679806, 151.0150262784351, 605.7604531740398, 2535.876216089457, 10763.751439831263 } },
    { 0.8125, 0.85, 0.83125, { 0.9731425636607011, 2.2846759806569756, 5.079555385254088, 19.03308505727142, 81.15082451467478, 373.8903238590883, 1806.4508777533006, 9209.462355853459, 47090.07775038299 } },
};
// erfinv(1 - 2 exp(-s^2))
static const Segment tail[] = {
    { 1.609375, 1.875, 1.7421875, { 1.1765690496835952, 1.1850098354864893, -0.07222171406877242, 0.030413927132189936, -0.013433134825242629, 0.006150753053572889, -0.002900674431540156, 0.0014159600901184966, -0.0006987873197087638 } },
    { 1.875, 2.25, 2.0625, { 1.5496087022932246, 1.146612384996152, -0.04961991195323416, 0.01801845366873179, -0.006827583366424249, 0.0026692701693436533, -0.0010706064909298898, 0.00044505725169552256, -0.00018591393570532174 } },
    { 2.25, 2.75, 2.5, { 2.0430492086936702, 1.1116583667677853, -0.03204605745458123, 0.00982076251974823, -0.0031267460691923317, 0.0010226196034704483, -0.0003417479309365046, 0.00011833451848867927, -4.0942345700061644e-05 } },
    { 2.75, 3.5, 3.125, { 2.7273189667128745, 1.0806796544064234, -0.019065222418844303, 0.004789971800361487, -0.0012457842743967182, 0.00033159995344031153, -8.987090926990119e-05, 2.5351129570181697e-05, -7.0679045913257536e-06 } },
    { 3.5, 4.25, 3.875, { 3.528796552929797, 1.058484214350096, -0.011423473884973199, 0.002364266536050068, -0.00050531771530805, 0.00011029446951516394, -2.4451004824419063e-05, 5.579548759086267e-06, -1.265863612138364e-06 } },
    { 4.25, 5.0, 4.625, { 4.317093998526562, 1.044631390223466, -0.007437761377128542, 0.0013100979910899626, -0.00023793832687595055, 4.407649696239396e-05, -8.281856847819235e-06, 1.5919739019877804e-06, -3.0522889746126647e-07 } },
    { 5.0, 5.5, 5.25, { 4.967370545833886, 1.0366665652632328, -0.0054476233191107885, 0.0008540334141556309, -0.00013791764060822596, 2.2701301821786275e-05, -3.7875269390066417e-06, 6.410757330102875e-07, -1.089707183773074e-07 } },
    { 5.5, 6.125, 5.8125, { 5.5489111877957304, 1.031260679449268, -0.004232884631154937, 0.0006040037002949832, -8.871597554679656e-05, 1.3274829347310384e-05, -2.012547139996256e-06, 3.097717742009768e-07, -4.780586743015698e-08 } },
};
