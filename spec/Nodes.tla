------------------------------- MODULE Nodes -------------------------------
EXTENDS Integers
(* generated by tools/mktables.py: for n = 1 .. 6 values per direction, the    *)
(* solution points, the flux points, the weights of the average, the change of  *)
(* each basis polynomial across the cell, its value at every flux point         *)
(* (numbers as in Fixed.tla; MCLimiter.tla checks them against the definitions)  *)
Node == <<
  <<<<0,0,0,0,5000,0,0,0,0,0>>>>,
  <<<<0,0,0,0,1464,4660,9406,7262,3779,9578>>, <<0,0,0,0,8535,5339,593,2737,6220,422>>>>,
  <<<<0,0,0,0,669,8729,8107,7806,7661,8138>>, <<0,0,0,0,5000,0,0,0,0,0>>, <<0,0,0,0,9330,1270,1892,2193,2338,1862>>>>,
  <<<<0,0,0,0,380,6023,3744,3566,2193,5908>>, <<0,0,0,0,3086,5828,3817,4551,1413,5770>>, <<0,0,0,0,6913,4171,6182,5448,8586,4230>>, <<0,0,0,0,9619,3976,6255,6433,7806,4092>>>>,
  <<<<0,0,0,0,244,7174,1852,4232,1394,1780>>, <<0,0,0,0,2061,737,3853,7634,3541,5647>>, <<0,0,0,0,5000,0,0,0,0,0>>, <<0,0,0,0,7938,9262,6146,2365,6458,4353>>, <<0,0,0,0,9755,2825,8147,5767,8605,8220>>>>,
  <<<<0,0,0,0,170,3708,6855,4658,5662,5128>>, <<0,0,0,0,1464,4660,9406,7262,3779,9578>>, <<0,0,0,0,3705,9047,7448,7396,1882,5551>>, <<0,0,0,0,6294,952,2551,2603,8117,4449>>, <<0,0,0,0,8535,5339,593,2737,6220,422>>, <<0,0,0,0,9829,6291,3144,5341,4337,4872>>>>>>
FluxNode == <<
  <<<<0,0,0,0,0,0,0,0,0,0>>, <<0,0,0,1,0,0,0,0,0,0>>>>,
  <<<<0,0,0,0,0,0,0,0,0,0>>, <<0,0,0,0,5000,0,0,0,0,0>>, <<0,0,0,1,0,0,0,0,0,0>>>>,
  <<<<0,0,0,0,0,0,0,0,0,0>>, <<0,0,0,0,2113,2486,5405,1871,1774,5426>>, <<0,0,0,0,7886,7513,4594,8128,8225,4574>>, <<0,0,0,1,0,0,0,0,0,0>>>>,
  <<<<0,0,0,0,0,0,0,0,0,0>>, <<0,0,0,0,1127,166,5379,2583,1148,2073>>, <<0,0,0,0,5000,0,0,0,0,0>>, <<0,0,0,0,8872,9833,4620,7416,8851,7927>>, <<0,0,0,1,0,0,0,0,0,0>>>>,
  <<<<0,0,0,0,0,0,0,0,0,0>>, <<0,0,0,0,694,3184,4202,9737,1238,8027>>, <<0,0,0,0,3300,947,8207,5718,6759,8667>>, <<0,0,0,0,6699,9052,1792,4281,3240,1333>>, <<0,0,0,0,9305,6815,5797,262,8761,1973>>, <<0,0,0,1,0,0,0,0,0,0>>>>,
  <<<<0,0,0,0,0,0,0,0,0,0>>, <<0,0,0,0,469,1007,7030,6680,360,1187>>, <<0,0,0,0,2307,6534,4947,1584,5448,1843>>, <<0,0,0,0,5000,0,0,0,0,0>>, <<0,0,0,0,7692,3465,5052,8415,4551,8157>>, <<0,0,0,0,9530,8992,2969,3319,9639,8813>>, <<0,0,0,1,0,0,0,0,0,0>>>>>>
Weight == <<
  <<<<0,0,0,1,0,0,0,0,0,0>>>>,
  <<<<0,0,0,0,5000,0,0,0,0,0>>, <<0,0,0,0,5000,0,0,0,0,0>>>>,
  <<<<0,0,0,0,2222,2222,2222,2222,2222,2222>>, <<0,0,0,0,5555,5555,5555,5555,5555,5556>>, <<0,0,0,0,2222,2222,2222,2222,2222,2222>>>>,
  <<<<0,0,0,0,1321,4886,9802,2420,7926,6526>>, <<0,0,0,0,3678,5113,197,7579,2073,3474>>, <<0,0,0,0,3678,5113,197,7579,2073,3474>>, <<0,0,0,0,1321,4886,9802,2420,7926,6526>>>>,
  <<<<0,0,0,0,838,9061,4233,3417,4547,6966>>, <<0,0,0,0,2627,7605,2433,3249,2118,9700>>, <<0,0,0,0,3066,6666,6666,6666,6666,6667>>, <<0,0,0,0,2627,7605,2433,3249,2118,9700>>, <<0,0,0,0,838,9061,4233,3417,4547,6966>>>>,
  <<<<0,0,0,0,593,3051,690,6179,2813,7364>>, <<0,0,0,0,1888,8888,8888,8888,8888,8889>>, <<0,0,0,0,2517,8060,420,4931,8297,3747>>, <<0,0,0,0,2517,8060,420,4931,8297,3747>>, <<0,0,0,0,1888,8888,8888,8888,8888,8889>>, <<0,0,0,0,593,3051,690,6179,2813,7364>>>>>>
Rise == <<
  <<<<0,0,0,0,0,0,0,0,0,0>>>>,
  <<<<-1,9999,9999,9998,5857,8643,7626,9049,5119,8311>>, <<0,0,0,1,4142,1356,2373,950,4880,1689>>>>,
  <<<<-1,9999,9999,9998,8452,9946,1620,7484,7098,1702>>, <<0,0,0,0,0,0,0,0,0,0>>, <<0,0,0,1,1547,53,8379,2515,2901,8298>>>>,
  <<<<-1,9999,9999,9998,6934,3703,5123,6234,7214,3357>>, <<0,0,0,0,5411,9610,146,1969,8439,9723>>, <<-1,9999,9999,9999,4588,389,9853,8030,1560,277>>, <<0,0,0,1,3065,6296,4876,3765,2785,6643>>>>,
  <<<<-1,9999,9999,9998,7689,2658,5129,8986,3897,1884>>, <<0,0,0,0,2906,1701,1202,1443,5435,8187>>, <<0,0,0,0,0,0,0,0,0,0>>, <<-1,9999,9999,9999,7093,8298,8797,8556,4564,1813>>, <<0,0,0,1,2310,7341,4870,1013,6102,8116>>>>,
  <<<<-1,9999,9999,9998,7120,9889,8281,2422,8433,3676>>, <<0,0,0,0,4714,452,791,316,8293,3896>>, <<-1,9999,9999,9999,6549,793,9863,3056,5020,1468>>, <<0,0,0,0,3450,9206,136,6943,4979,8532>>, <<-1,9999,9999,9999,5285,9547,9208,9683,1706,6104>>, <<0,0,0,1,2879,110,1718,7577,1566,6324>>>>>>
ToFlux == <<
  <<<<<<0,0,0,1,0,0,0,0,0,0>>>>, <<<<0,0,0,1,0,0,0,0,0,0>>>>>>,
  <<<<<<0,0,0,1,2071,678,1186,5475,2440,844>>, <<-1,9999,9999,9999,7928,9321,8813,4524,7559,9156>>>>, <<<<0,0,0,0,5000,0,0,0,0,0>>, <<0,0,0,0,5000,0,0,0,0,0>>>>, <<<<-1,9999,9999,9999,7928,9321,8813,4524,7559,9156>>, <<0,0,0,1,2071,678,1186,5475,2440,844>>>>>>,
  <<<<<<0,0,0,1,2440,1693,5856,2924,3117,5815>>, <<-1,9999,9999,9999,6666,6666,6666,6666,6666,6667>>, <<0,0,0,0,893,1639,7477,409,215,7518>>>>, <<<<0,0,0,0,5555,5555,5555,5555,5555,5556>>, <<0,0,0,0,5555,5555,5555,5555,5555,5556>>, <<-1,9999,9999,9999,8888,8888,8888,8888,8888,8889>>>>, <<<<-1,9999,9999,9999,8888,8888,8888,8888,8888,8889>>, <<0,0,0,0,5555,5555,5555,5555,5555,5556>>, <<0,0,0,0,5555,5555,5555,5555,5555,5556>>>>, <<<<0,0,0,0,893,1639,7477,409,215,7518>>, <<-1,9999,9999,9999,6666,6666,6666,6666,6666,6667>>, <<0,0,0,1,2440,1693,5856,2924,3117,5815>>>>>>,
  <<<<<<0,0,0,1,2568,3487,3031,4620,2612,8744>>, <<-1,9999,9999,9999,6258,4855,9333,6277,4559,9716>>, <<0,0,0,0,1670,4465,9479,8247,2999,9439>>, <<-1,9999,9999,9999,9502,7190,8155,854,9827,2101>>>>, <<<<0,0,0,0,5896,8,8825,2963,8528,7994>>, <<0,0,0,0,5421,9218,522,3801,9859,681>>, <<-1,9999,9999,9999,8163,8646,3240,3102,9652,9150>>, <<0,0,0,0,518,2126,7412,131,1959,2175>>>>, <<<<-1,9999,9999,9999,8964,4660,9406,7262,3779,9578>>, <<0,0,0,0,6035,5339,593,2737,6220,422>>, <<0,0,0,0,6035,5339,593,2737,6220,422>>, <<-1,9999,9999,9999,8964,4660,9406,7262,3779,9578>>>>, <<<<0,0,0,0,518,2126,7412,131,1959,2175>>, <<-1,9999,9999,9999,8163,8646,3240,3102,9652,9150>>, <<0,0,0,0,5421,9218,522,3801,9859,681>>, <<0,0,0,0,5896,8,8825,2963,8528,7994>>>>, <<<<-1,9999,9999,9999,9502,7190,8155,854,9827,2101>>, <<0,0,0,0,1670,4465,9479,8247,2999,9439>>, <<-1,9999,9999,9999,6258,4855,9333,6277,4559,9716>>, <<0,0,0,1,2568,3487,3031,4620,2612,8744>>>>>>,
  <<<<<<0,0,0,1,2627,5030,2935,86,1979,5893>>, <<-1,9999,9999,9999,6074,7789,8898,9698,8353,9072>>, <<0,0,0,0,2000,0,0,0,0,0>>, <<-1,9999,9999,9999,8980,9491,101,1142,3789,7259>>, <<0,0,0,0,316,7688,8064,9072,5876,7777>>>>, <<<<0,0,0,0,6111,8725,5016,9484,4810,238>>, <<0,0,0,0,5263,6389,9347,5631,5006,4307>>, <<-1,9999,9999,9999,7934,7277,5016,6969,9604,7238>>, <<0,0,0,0,993,291,1248,5723,6042,4791>>, <<-1,9999,9999,9999,9696,7315,9370,2190,4536,3426>>>>, <<<<-1,9999,9999,9999,9002,1317,7924,8488,6147,7162>>, <<0,0,0,0,6442,2065,7211,9959,4394,1876>>, <<0,0,0,0,5804,477,6003,7111,6721,8068>>, <<-1,9999,9999,9999,8279,3016,8510,2091,1098,9296>>, <<0,0,0,0,472,3122,349,2349,1637,3597>>>>, <<<<0,0,0,0,472,3122,349,2349,1637,3597>>, <<-1,9999,9999,9999,8279,3016,8510,2091,1098,9296>>, <<0,0,0,0,5804,477,6003,7111,6721,8068>>, <<0,0,0,0,6442,2065,7211,9959,4394,1876>>, <<-1,9999,9999,9999,9002,1317,7924,8488,6147,7162>>>>, <<<<-1,9999,9999,9999,9696,7315,9370,2190,4536,3426>>, <<0,0,0,0,993,291,1248,5723,6042,4791>>, <<-1,9999,9999,9999,7934,7277,5016,6969,9604,7238>>, <<0,0,0,0,5263,6389,9347,5631,5006,4307>>, <<0,0,0,0,6111,8725,5016,9484,4810,238>>>>, <<<<0,0,0,0,316,7688,8064,9072,5876,7777>>, <<-1,9999,9999,9999,8980,9491,101,1142,3789,7259>>, <<0,0,0,0,2000,0,0,0,0,0>>, <<-1,9999,9999,9999,6074,7789,8898,9698,8353,9072>>, <<0,0,0,1,2627,5030,2935,86,1979,5893>>>>>>,
  <<<<<<0,0,0,1,2659,5901,8787,5250,7342,1070>>, <<-1,9999,9999,9999,5976,3107,2937,8174,9186,6385>>, <<0,0,0,0,2172,422,8806,8676,2597,8025>>, <<-1,9999,9999,9999,8721,1216,8670,1732,7617,9493>>, <<0,0,0,0,690,3559,3728,8491,7480,281>>, <<-1,9999,9999,9999,9780,5791,7068,7673,5775,4746>>>>, <<<<0,0,0,0,6259,2351,201,2279,7304,9092>>, <<0,0,0,0,5132,2313,4879,7672,6861,3512>>, <<-1,9999,9999,9999,7844,876,2589,1502,7310,3846>>, <<0,0,0,0,1197,9866,8631,1866,492,6963>>, <<-1,9999,9999,9999,9366,7033,4555,3272,7850,4057>>, <<0,0,0,0,199,7558,9143,3406,180,2529>>>>, <<<<-1,9999,9999,9999,9027,4501,3097,7080,3361,6369>>, <<0,0,0,0,6735,141,4804,1010,6652,2571>>, <<0,0,0,0,5547,9959,3137,9070,8214,8787>>, <<-1,9999,9999,9999,8054,308,6309,7874,6898,8858>>, <<0,0,0,0,911,8477,4784,9078,5490,7773>>, <<-1,9999,9999,9999,9723,6611,7865,5884,9381,5641>>>>, <<<<0,0,0,0,446,5819,8738,5204,5107,8759>>, <<-1,9999,9999,9999,8333,3333,3333,3333,3333,3333>>, <<0,0,0,0,6220,846,7928,1462,1558,7908>>, <<0,0,0,0,6220,846,7928,1462,1558,7908>>, <<-1,9999,9999,9999,8333,3333,3333,3333,3333,3333>>, <<0,0,0,0,446,5819,8738,5204,5107,8759>>>>, <<<<-1,9999,9999,9999,9723,6611,7865,5884,9381,5641>>, <<0,0,0,0,911,8477,4784,9078,5490,7773>>, <<-1,9999,9999,9999,8054,308,6309,7874,6898,8858>>, <<0,0,0,0,5547,9959,3137,9070,8214,8787>>, <<0,0,0,0,6735,141,4804,1010,6652,2571>>, <<-1,9999,9999,9999,9027,4501,3097,7080,3361,6369>>>>, <<<<0,0,0,0,199,7558,9143,3406,180,2529>>, <<-1,9999,9999,9999,9366,7033,4555,3272,7850,4057>>, <<0,0,0,0,1197,9866,8631,1866,492,6963>>, <<-1,9999,9999,9999,7844,876,2589,1502,7310,3846>>, <<0,0,0,0,5132,2313,4879,7672,6861,3512>>, <<0,0,0,0,6259,2351,201,2279,7304,9092>>>>, <<<<-1,9999,9999,9999,9780,5791,7068,7673,5775,4746>>, <<0,0,0,0,690,3559,3728,8491,7480,281>>, <<-1,9999,9999,9999,8721,1216,8670,1732,7617,9493>>, <<0,0,0,0,2172,422,8806,8676,2597,8025>>, <<-1,9999,9999,9999,5976,3107,2937,8174,9186,6385>>, <<0,0,0,1,2659,5901,8787,5250,7342,1070>>>>>>>>
=============================================================================
