#[no_mangle] pub extern "C" fn c12_0_0() { wf::run(12, 0, 0) }
#[no_mangle] pub extern "C" fn c12_0_1() { wf::run(12, 0, 1) }
#[no_mangle] pub extern "C" fn c12_0_2() { wf::run(12, 0, 2) }
#[no_mangle] pub extern "C" fn c12_1_0() { wf::run(12, 1, 0) }
#[no_mangle] pub extern "C" fn c12_1_1() { wf::run(12, 1, 1) }
#[no_mangle] pub extern "C" fn c12_1_2() { wf::run(12, 1, 2) }
#[no_mangle] pub extern "C" fn c12_2_0() { wf::run(12, 2, 0) }
#[no_mangle] pub extern "C" fn c12_2_1() { wf::run(12, 2, 1) }
#[no_mangle] pub extern "C" fn c12_2_2() { wf::run(12, 2, 2) }
#[no_mangle] pub extern "C" fn c12_3_0() { wf::run(12, 3, 0) }
#[no_mangle] pub extern "C" fn c12_3_1() { wf::run(12, 3, 1) }
#[no_mangle] pub extern "C" fn c12_3_2() { wf::run(12, 3, 2) }
#[no_mangle] pub extern "C" fn c12_4_0() { wf::run(12, 4, 0) }
#[no_mangle] pub extern "C" fn c12_4_1() { wf::run(12, 4, 1) }
#[no_mangle] pub extern "C" fn c12_5_0() { wf::run(12, 5, 0) }
#[no_mangle] pub extern "C" fn c12_5_1() { wf::run(12, 5, 1) }
#[no_mangle] pub extern "C" fn c12_5_2() { wf::run(12, 5, 2) }
#[no_mangle] pub extern "C" fn c12_6_0() { wf::run(12, 6, 0) }
#[no_mangle] pub extern "C" fn c12_6_1() { wf::run(12, 6, 1) }
#[no_mangle] pub extern "C" fn c12_6_2() { wf::run(12, 6, 2) }
#[no_mangle] pub extern "C" fn c12_7_0() { wf::run(12, 7, 0) }
#[no_mangle] pub extern "C" fn c12_7_1() { wf::run(12, 7, 1) }
#[no_mangle] pub extern "C" fn c12_7_2() { wf::run(12, 7, 2) }
#[no_mangle] pub extern "C" fn c12_8_0() { wf::run(12, 8, 0) }
#[no_mangle] pub extern "C" fn c12_8_1() { wf::run(12, 8, 1) }
#[no_mangle] pub extern "C" fn c12_8_2() { wf::run(12, 8, 2) }
#[no_mangle] pub extern "C" fn c12_9_0() { wf::run(12, 9, 0) }
#[no_mangle] pub extern "C" fn c12_9_1() { wf::run(12, 9, 1) }
#[no_mangle] pub extern "C" fn c12_9_2() { wf::run(12, 9, 2) }
#[no_mangle] pub extern "C" fn c12_10_0() { wf::run(12, 10, 0) }
#[no_mangle] pub extern "C" fn c12_10_1() { wf::run(12, 10, 1) }
#[no_mangle] pub extern "C" fn c12_10_2() { wf::run(12, 10, 2) }
#[no_mangle] pub extern "C" fn c12_11_0() { wf::run(12, 11, 0) }
#[no_mangle] pub extern "C" fn c12_11_1() { wf::run(12, 11, 1) }
#[no_mangle] pub extern "C" fn c12_11_2() { wf::run(12, 11, 2) }
#[no_mangle] pub extern "C" fn c12_11_3() { wf::run(12, 11, 3) }
#[no_mangle] pub extern "C" fn c12_12_0() { wf::run(12, 12, 0) }
#[no_mangle] pub extern "C" fn c12_12_1() { wf::run(12, 12, 1) }
#[no_mangle] pub extern "C" fn c12_12_2() { wf::run(12, 12, 2) }
#[no_mangle] pub extern "C" fn c12_12_3() { wf::run(12, 12, 3) }
#[no_mangle] pub extern "C" fn c12_13_0() { wf::run(12, 13, 0) }
#[no_mangle] pub extern "C" fn c12_13_1() { wf::run(12, 13, 1) }
#[no_mangle] pub extern "C" fn c12_13_2() { wf::run(12, 13, 2) }
#[no_mangle] pub extern "C" fn c12_14_0() { wf::run(12, 14, 0) }
#[no_mangle] pub extern "C" fn c12_14_1() { wf::run(12, 14, 1) }
#[no_mangle] pub extern "C" fn c12_14_2() { wf::run(12, 14, 2) }
#[no_mangle] pub extern "C" fn c12_15_0() { wf::run(12, 15, 0) }
#[no_mangle] pub extern "C" fn c12_15_1() { wf::run(12, 15, 1) }
#[no_mangle] pub extern "C" fn c12_15_2() { wf::run(12, 15, 2) }
#[no_mangle] pub extern "C" fn c12_16_0() { wf::run(12, 16, 0) }
#[no_mangle] pub extern "C" fn c12_16_1() { wf::run(12, 16, 1) }
#[no_mangle] pub extern "C" fn c12_16_2() { wf::run(12, 16, 2) }
#[no_mangle] pub extern "C" fn c12_17_0() { wf::run(12, 17, 0) }
#[no_mangle] pub extern "C" fn c12_17_1() { wf::run(12, 17, 1) }
#[no_mangle] pub extern "C" fn c12_17_2() { wf::run(12, 17, 2) }
#[no_mangle] pub extern "C" fn c12_17_3() { wf::run(12, 17, 3) }
#[no_mangle] pub extern "C" fn c12_17_4() { wf::run(12, 17, 4) }
#[no_mangle] pub extern "C" fn c12_18_0() { wf::run(12, 18, 0) }
#[no_mangle] pub extern "C" fn c12_18_1() { wf::run(12, 18, 1) }
#[no_mangle] pub extern "C" fn c12_18_2() { wf::run(12, 18, 2) }
#[no_mangle] pub extern "C" fn c12_19_0() { wf::run(12, 19, 0) }
#[no_mangle] pub extern "C" fn c12_19_1() { wf::run(12, 19, 1) }
#[no_mangle] pub extern "C" fn c12_19_2() { wf::run(12, 19, 2) }
#[no_mangle] pub extern "C" fn c12_20_0() { wf::run(12, 20, 0) }
#[no_mangle] pub extern "C" fn c12_20_1() { wf::run(12, 20, 1) }
#[no_mangle] pub extern "C" fn c12_20_2() { wf::run(12, 20, 2) }
#[no_mangle] pub extern "C" fn c12_20_3() { wf::run(12, 20, 3) }
#[no_mangle] pub extern "C" fn c12_21_0() { wf::run(12, 21, 0) }
#[no_mangle] pub extern "C" fn c12_21_1() { wf::run(12, 21, 1) }
#[no_mangle] pub extern "C" fn c12_21_2() { wf::run(12, 21, 2) }
#[no_mangle] pub extern "C" fn c12_21_3() { wf::run(12, 21, 3) }
#[no_mangle] pub extern "C" fn c12_21_4() { wf::run(12, 21, 4) }
#[no_mangle] pub extern "C" fn c12_22_0() { wf::run(12, 22, 0) }
#[no_mangle] pub extern "C" fn c12_22_1() { wf::run(12, 22, 1) }
#[no_mangle] pub extern "C" fn c12_22_2() { wf::run(12, 22, 2) }
#[no_mangle] pub extern "C" fn c12_23_0() { wf::run(12, 23, 0) }
#[no_mangle] pub extern "C" fn c12_23_1() { wf::run(12, 23, 1) }
#[no_mangle] pub extern "C" fn c12_23_2() { wf::run(12, 23, 2) }
#[no_mangle] pub extern "C" fn c12_24_0() { wf::run(12, 24, 0) }
#[no_mangle] pub extern "C" fn c12_24_1() { wf::run(12, 24, 1) }
#[no_mangle] pub extern "C" fn c12_24_2() { wf::run(12, 24, 2) }
#[no_mangle] pub extern "C" fn c12_25_0() { wf::run(12, 25, 0) }
#[no_mangle] pub extern "C" fn c12_25_1() { wf::run(12, 25, 1) }
#[no_mangle] pub extern "C" fn c12_25_2() { wf::run(12, 25, 2) }
#[no_mangle] pub extern "C" fn c12_25_3() { wf::run(12, 25, 3) }
#[no_mangle] pub extern "C" fn c12_26_0() { wf::run(12, 26, 0) }
#[no_mangle] pub extern "C" fn c12_26_1() { wf::run(12, 26, 1) }
#[no_mangle] pub extern "C" fn c12_26_2() { wf::run(12, 26, 2) }
#[no_mangle] pub extern "C" fn c12_26_3() { wf::run(12, 26, 3) }
#[no_mangle] pub extern "C" fn c12_27_0() { wf::run(12, 27, 0) }
#[no_mangle] pub extern "C" fn c12_27_1() { wf::run(12, 27, 1) }
#[no_mangle] pub extern "C" fn c12_27_2() { wf::run(12, 27, 2) }
#[no_mangle] pub extern "C" fn c12_27_3() { wf::run(12, 27, 3) }
#[no_mangle] pub extern "C" fn c12_27_4() { wf::run(12, 27, 4) }
#[no_mangle] pub extern "C" fn c12_28_0() { wf::run(12, 28, 0) }
#[no_mangle] pub extern "C" fn c12_28_1() { wf::run(12, 28, 1) }
#[no_mangle] pub extern "C" fn c13_0_0() { wf::run(13, 0, 0) }
#[no_mangle] pub extern "C" fn c13_0_1() { wf::run(13, 0, 1) }
#[no_mangle] pub extern "C" fn c13_0_2() { wf::run(13, 0, 2) }
#[no_mangle] pub extern "C" fn c13_1_0() { wf::run(13, 1, 0) }
#[no_mangle] pub extern "C" fn c13_1_1() { wf::run(13, 1, 1) }
#[no_mangle] pub extern "C" fn c13_1_2() { wf::run(13, 1, 2) }
#[no_mangle] pub extern "C" fn c13_2_0() { wf::run(13, 2, 0) }
#[no_mangle] pub extern "C" fn c13_2_1() { wf::run(13, 2, 1) }
#[no_mangle] pub extern "C" fn c13_2_2() { wf::run(13, 2, 2) }
#[no_mangle] pub extern "C" fn c13_3_0() { wf::run(13, 3, 0) }
#[no_mangle] pub extern "C" fn c13_3_1() { wf::run(13, 3, 1) }
#[no_mangle] pub extern "C" fn c13_3_2() { wf::run(13, 3, 2) }
#[no_mangle] pub extern "C" fn c13_4_0() { wf::run(13, 4, 0) }
#[no_mangle] pub extern "C" fn c13_4_1() { wf::run(13, 4, 1) }
#[no_mangle] pub extern "C" fn c13_5_0() { wf::run(13, 5, 0) }
#[no_mangle] pub extern "C" fn c13_5_1() { wf::run(13, 5, 1) }
#[no_mangle] pub extern "C" fn c13_5_2() { wf::run(13, 5, 2) }
#[no_mangle] pub extern "C" fn c13_6_0() { wf::run(13, 6, 0) }
#[no_mangle] pub extern "C" fn c13_6_1() { wf::run(13, 6, 1) }
#[no_mangle] pub extern "C" fn c13_6_2() { wf::run(13, 6, 2) }
#[no_mangle] pub extern "C" fn c13_7_0() { wf::run(13, 7, 0) }
#[no_mangle] pub extern "C" fn c13_7_1() { wf::run(13, 7, 1) }
#[no_mangle] pub extern "C" fn c13_7_2() { wf::run(13, 7, 2) }
#[no_mangle] pub extern "C" fn c13_8_0() { wf::run(13, 8, 0) }
#[no_mangle] pub extern "C" fn c13_8_1() { wf::run(13, 8, 1) }
#[no_mangle] pub extern "C" fn c13_8_2() { wf::run(13, 8, 2) }
#[no_mangle] pub extern "C" fn c13_9_0() { wf::run(13, 9, 0) }
#[no_mangle] pub extern "C" fn c13_9_1() { wf::run(13, 9, 1) }
#[no_mangle] pub extern "C" fn c13_9_2() { wf::run(13, 9, 2) }
#[no_mangle] pub extern "C" fn c13_10_0() { wf::run(13, 10, 0) }
#[no_mangle] pub extern "C" fn c13_10_1() { wf::run(13, 10, 1) }
#[no_mangle] pub extern "C" fn c13_10_2() { wf::run(13, 10, 2) }
#[no_mangle] pub extern "C" fn c13_11_0() { wf::run(13, 11, 0) }
#[no_mangle] pub extern "C" fn c13_11_1() { wf::run(13, 11, 1) }
#[no_mangle] pub extern "C" fn c13_11_2() { wf::run(13, 11, 2) }
#[no_mangle] pub extern "C" fn c13_11_3() { wf::run(13, 11, 3) }
#[no_mangle] pub extern "C" fn c13_12_0() { wf::run(13, 12, 0) }
#[no_mangle] pub extern "C" fn c13_12_1() { wf::run(13, 12, 1) }
#[no_mangle] pub extern "C" fn c13_12_2() { wf::run(13, 12, 2) }
#[no_mangle] pub extern "C" fn c13_12_3() { wf::run(13, 12, 3) }
#[no_mangle] pub extern "C" fn c13_13_0() { wf::run(13, 13, 0) }
#[no_mangle] pub extern "C" fn c13_13_1() { wf::run(13, 13, 1) }
#[no_mangle] pub extern "C" fn c13_13_2() { wf::run(13, 13, 2) }
#[no_mangle] pub extern "C" fn c13_14_0() { wf::run(13, 14, 0) }
#[no_mangle] pub extern "C" fn c13_14_1() { wf::run(13, 14, 1) }
#[no_mangle] pub extern "C" fn c13_14_2() { wf::run(13, 14, 2) }
#[no_mangle] pub extern "C" fn c13_15_0() { wf::run(13, 15, 0) }
#[no_mangle] pub extern "C" fn c13_15_1() { wf::run(13, 15, 1) }
#[no_mangle] pub extern "C" fn c13_15_2() { wf::run(13, 15, 2) }
#[no_mangle] pub extern "C" fn c13_16_0() { wf::run(13, 16, 0) }
#[no_mangle] pub extern "C" fn c13_16_1() { wf::run(13, 16, 1) }
#[no_mangle] pub extern "C" fn c13_16_2() { wf::run(13, 16, 2) }
#[no_mangle] pub extern "C" fn c13_17_0() { wf::run(13, 17, 0) }
#[no_mangle] pub extern "C" fn c13_17_1() { wf::run(13, 17, 1) }
#[no_mangle] pub extern "C" fn c13_17_2() { wf::run(13, 17, 2) }
#[no_mangle] pub extern "C" fn c13_17_3() { wf::run(13, 17, 3) }
#[no_mangle] pub extern "C" fn c13_17_4() { wf::run(13, 17, 4) }
#[no_mangle] pub extern "C" fn c13_18_0() { wf::run(13, 18, 0) }
#[no_mangle] pub extern "C" fn c13_18_1() { wf::run(13, 18, 1) }
#[no_mangle] pub extern "C" fn c13_18_2() { wf::run(13, 18, 2) }
#[no_mangle] pub extern "C" fn c13_19_0() { wf::run(13, 19, 0) }
#[no_mangle] pub extern "C" fn c13_19_1() { wf::run(13, 19, 1) }
#[no_mangle] pub extern "C" fn c13_19_2() { wf::run(13, 19, 2) }
#[no_mangle] pub extern "C" fn c13_20_0() { wf::run(13, 20, 0) }
#[no_mangle] pub extern "C" fn c13_20_1() { wf::run(13, 20, 1) }
#[no_mangle] pub extern "C" fn c13_20_2() { wf::run(13, 20, 2) }
#[no_mangle] pub extern "C" fn c13_20_3() { wf::run(13, 20, 3) }
#[no_mangle] pub extern "C" fn c13_21_0() { wf::run(13, 21, 0) }
#[no_mangle] pub extern "C" fn c13_21_1() { wf::run(13, 21, 1) }
#[no_mangle] pub extern "C" fn c13_21_2() { wf::run(13, 21, 2) }
#[no_mangle] pub extern "C" fn c13_21_3() { wf::run(13, 21, 3) }
#[no_mangle] pub extern "C" fn c13_21_4() { wf::run(13, 21, 4) }
#[no_mangle] pub extern "C" fn c13_22_0() { wf::run(13, 22, 0) }
#[no_mangle] pub extern "C" fn c13_22_1() { wf::run(13, 22, 1) }
#[no_mangle] pub extern "C" fn c13_22_2() { wf::run(13, 22, 2) }
#[no_mangle] pub extern "C" fn c13_23_0() { wf::run(13, 23, 0) }
#[no_mangle] pub extern "C" fn c13_23_1() { wf::run(13, 23, 1) }
#[no_mangle] pub extern "C" fn c13_23_2() { wf::run(13, 23, 2) }
#[no_mangle] pub extern "C" fn c13_24_0() { wf::run(13, 24, 0) }
#[no_mangle] pub extern "C" fn c13_24_1() { wf::run(13, 24, 1) }
#[no_mangle] pub extern "C" fn c13_24_2() { wf::run(13, 24, 2) }
#[no_mangle] pub extern "C" fn c13_25_0() { wf::run(13, 25, 0) }
#[no_mangle] pub extern "C" fn c13_25_1() { wf::run(13, 25, 1) }
#[no_mangle] pub extern "C" fn c13_25_2() { wf::run(13, 25, 2) }
#[no_mangle] pub extern "C" fn c13_25_3() { wf::run(13, 25, 3) }
#[no_mangle] pub extern "C" fn c13_26_0() { wf::run(13, 26, 0) }
#[no_mangle] pub extern "C" fn c13_26_1() { wf::run(13, 26, 1) }
#[no_mangle] pub extern "C" fn c13_26_2() { wf::run(13, 26, 2) }
#[no_mangle] pub extern "C" fn c13_26_3() { wf::run(13, 26, 3) }
#[no_mangle] pub extern "C" fn c13_27_0() { wf::run(13, 27, 0) }
#[no_mangle] pub extern "C" fn c13_27_1() { wf::run(13, 27, 1) }
#[no_mangle] pub extern "C" fn c13_27_2() { wf::run(13, 27, 2) }
#[no_mangle] pub extern "C" fn c13_27_3() { wf::run(13, 27, 3) }
#[no_mangle] pub extern "C" fn c13_27_4() { wf::run(13, 27, 4) }
#[no_mangle] pub extern "C" fn c13_28_0() { wf::run(13, 28, 0) }
#[no_mangle] pub extern "C" fn c13_28_1() { wf::run(13, 28, 1) }
#[no_mangle] pub extern "C" fn c15_0_0() { types::run(0, 0, true) }
#[no_mangle] pub extern "C" fn c15_0_0w() { types::run(0, 0, false) }
#[no_mangle] pub extern "C" fn c15_0_1() { types::run(0, 1, true) }
#[no_mangle] pub extern "C" fn c15_0_1w() { types::run(0, 1, false) }
#[no_mangle] pub extern "C" fn c15_0_2() { types::run(0, 2, true) }
#[no_mangle] pub extern "C" fn c15_0_2w() { types::run(0, 2, false) }
#[no_mangle] pub extern "C" fn c15_0_3() { types::run(0, 3, true) }
#[no_mangle] pub extern "C" fn c15_0_3w() { types::run(0, 3, false) }
#[no_mangle] pub extern "C" fn c15_1_0() { types::run(1, 0, true) }
#[no_mangle] pub extern "C" fn c15_1_0w() { types::run(1, 0, false) }
#[no_mangle] pub extern "C" fn c15_1_1() { types::run(1, 1, true) }
#[no_mangle] pub extern "C" fn c15_1_1w() { types::run(1, 1, false) }
#[no_mangle] pub extern "C" fn c15_1_2() { types::run(1, 2, true) }
#[no_mangle] pub extern "C" fn c15_1_2w() { types::run(1, 2, false) }
#[no_mangle] pub extern "C" fn c15_1_3() { types::run(1, 3, true) }
#[no_mangle] pub extern "C" fn c15_1_3w() { types::run(1, 3, false) }
#[no_mangle] pub extern "C" fn c15_2_0() { types::run(2, 0, true) }
#[no_mangle] pub extern "C" fn c15_2_0w() { types::run(2, 0, false) }
#[no_mangle] pub extern "C" fn c15_2_1() { types::run(2, 1, true) }
#[no_mangle] pub extern "C" fn c15_2_1w() { types::run(2, 1, false) }
#[no_mangle] pub extern "C" fn c15_2_2() { types::run(2, 2, true) }
#[no_mangle] pub extern "C" fn c15_2_2w() { types::run(2, 2, false) }
#[no_mangle] pub extern "C" fn c15_2_3() { types::run(2, 3, true) }
#[no_mangle] pub extern "C" fn c15_2_3w() { types::run(2, 3, false) }
#[no_mangle] pub extern "C" fn c15_3_0() { types::run(3, 0, true) }
#[no_mangle] pub extern "C" fn c15_3_0w() { types::run(3, 0, false) }
#[no_mangle] pub extern "C" fn c15_3_1() { types::run(3, 1, true) }
#[no_mangle] pub extern "C" fn c15_3_1w() { types::run(3, 1, false) }
#[no_mangle] pub extern "C" fn c15_3_2() { types::run(3, 2, true) }
#[no_mangle] pub extern "C" fn c15_3_2w() { types::run(3, 2, false) }
#[no_mangle] pub extern "C" fn c15_3_3() { types::run(3, 3, true) }
#[no_mangle] pub extern "C" fn c15_3_3w() { types::run(3, 3, false) }
#[no_mangle] pub extern "C" fn c15_4_0() { types::run(4, 0, true) }
#[no_mangle] pub extern "C" fn c15_4_0w() { types::run(4, 0, false) }
#[no_mangle] pub extern "C" fn c15_4_1() { types::run(4, 1, true) }
#[no_mangle] pub extern "C" fn c15_4_1w() { types::run(4, 1, false) }
#[no_mangle] pub extern "C" fn c15_4_2() { types::run(4, 2, true) }
#[no_mangle] pub extern "C" fn c15_4_2w() { types::run(4, 2, false) }
#[no_mangle] pub extern "C" fn c15_4_3() { types::run(4, 3, true) }
#[no_mangle] pub extern "C" fn c15_4_3w() { types::run(4, 3, false) }
#[no_mangle] pub extern "C" fn c15_5_0() { types::run(5, 0, true) }
#[no_mangle] pub extern "C" fn c15_5_0w() { types::run(5, 0, false) }
#[no_mangle] pub extern "C" fn c15_5_1() { types::run(5, 1, true) }
#[no_mangle] pub extern "C" fn c15_5_1w() { types::run(5, 1, false) }
#[no_mangle] pub extern "C" fn c15_5_2() { types::run(5, 2, true) }
#[no_mangle] pub extern "C" fn c15_5_2w() { types::run(5, 2, false) }
#[no_mangle] pub extern "C" fn c15_5_3() { types::run(5, 3, true) }
#[no_mangle] pub extern "C" fn c15_5_3w() { types::run(5, 3, false) }
#[no_mangle] pub extern "C" fn c15_5_4() { types::run(5, 4, true) }
#[no_mangle] pub extern "C" fn c15_5_4w() { types::run(5, 4, false) }
#[no_mangle] pub extern "C" fn c15_6_0() { types::run(6, 0, true) }
#[no_mangle] pub extern "C" fn c15_6_0w() { types::run(6, 0, false) }
#[no_mangle] pub extern "C" fn c15_6_1() { types::run(6, 1, true) }
#[no_mangle] pub extern "C" fn c15_6_1w() { types::run(6, 1, false) }
#[no_mangle] pub extern "C" fn c15_6_2() { types::run(6, 2, true) }
#[no_mangle] pub extern "C" fn c15_6_2w() { types::run(6, 2, false) }
#[no_mangle] pub extern "C" fn c15_7_0() { types::run(7, 0, true) }
#[no_mangle] pub extern "C" fn c15_7_0w() { types::run(7, 0, false) }
#[no_mangle] pub extern "C" fn c15_7_1() { types::run(7, 1, true) }
#[no_mangle] pub extern "C" fn c15_7_1w() { types::run(7, 1, false) }
#[no_mangle] pub extern "C" fn c15_7_2() { types::run(7, 2, true) }
#[no_mangle] pub extern "C" fn c15_7_2w() { types::run(7, 2, false) }
#[no_mangle] pub extern "C" fn c15_7_3() { types::run(7, 3, true) }
#[no_mangle] pub extern "C" fn c15_7_3w() { types::run(7, 3, false) }
#[no_mangle] pub extern "C" fn c15_7_4() { types::run(7, 4, true) }
#[no_mangle] pub extern "C" fn c15_7_4w() { types::run(7, 4, false) }
#[no_mangle] pub extern "C" fn c15_8_0() { types::run(8, 0, true) }
#[no_mangle] pub extern "C" fn c15_8_0w() { types::run(8, 0, false) }
#[no_mangle] pub extern "C" fn c15_8_1() { types::run(8, 1, true) }
#[no_mangle] pub extern "C" fn c15_8_1w() { types::run(8, 1, false) }
#[no_mangle] pub extern "C" fn c15_8_2() { types::run(8, 2, true) }
#[no_mangle] pub extern "C" fn c15_8_2w() { types::run(8, 2, false) }
#[no_mangle] pub extern "C" fn c15_8_3() { types::run(8, 3, true) }
#[no_mangle] pub extern "C" fn c15_8_3w() { types::run(8, 3, false) }
#[no_mangle] pub extern "C" fn c15_9_0() { types::run(9, 0, true) }
#[no_mangle] pub extern "C" fn c15_9_0w() { types::run(9, 0, false) }
#[no_mangle] pub extern "C" fn c15_9_1() { types::run(9, 1, true) }
#[no_mangle] pub extern "C" fn c15_9_1w() { types::run(9, 1, false) }
#[no_mangle] pub extern "C" fn c15_9_2() { types::run(9, 2, true) }
#[no_mangle] pub extern "C" fn c15_9_2w() { types::run(9, 2, false) }
#[no_mangle] pub extern "C" fn c15_9_3() { types::run(9, 3, true) }
#[no_mangle] pub extern "C" fn c15_9_3w() { types::run(9, 3, false) }
#[no_mangle] pub extern "C" fn c15_10_0() { types::run(10, 0, true) }
#[no_mangle] pub extern "C" fn c15_10_0w() { types::run(10, 0, false) }
#[no_mangle] pub extern "C" fn c15_10_1() { types::run(10, 1, true) }
#[no_mangle] pub extern "C" fn c15_10_1w() { types::run(10, 1, false) }
#[no_mangle] pub extern "C" fn c15_10_2() { types::run(10, 2, true) }
#[no_mangle] pub extern "C" fn c15_10_2w() { types::run(10, 2, false) }
#[no_mangle] pub extern "C" fn c15_10_3() { types::run(10, 3, true) }
#[no_mangle] pub extern "C" fn c15_10_3w() { types::run(10, 3, false) }
#[no_mangle] pub extern "C" fn c15_10_4() { types::run(10, 4, true) }
#[no_mangle] pub extern "C" fn c15_10_4w() { types::run(10, 4, false) }
#[no_mangle] pub extern "C" fn c15_10_5() { types::run(10, 5, true) }
#[no_mangle] pub extern "C" fn c15_10_5w() { types::run(10, 5, false) }
#[no_mangle] pub extern "C" fn c15_11_0() { types::run(11, 0, true) }
#[no_mangle] pub extern "C" fn c15_11_0w() { types::run(11, 0, false) }
#[no_mangle] pub extern "C" fn c15_11_1() { types::run(11, 1, true) }
#[no_mangle] pub extern "C" fn c15_11_1w() { types::run(11, 1, false) }
#[no_mangle] pub extern "C" fn c15_12_0() { types::run(12, 0, true) }
#[no_mangle] pub extern "C" fn c15_12_0w() { types::run(12, 0, false) }
#[no_mangle] pub extern "C" fn c15_12_1() { types::run(12, 1, true) }
#[no_mangle] pub extern "C" fn c15_12_1w() { types::run(12, 1, false) }
#[no_mangle] pub extern "C" fn c15_13_0() { types::run(13, 0, true) }
#[no_mangle] pub extern "C" fn c15_13_0w() { types::run(13, 0, false) }
#[no_mangle] pub extern "C" fn c15_13_1() { types::run(13, 1, true) }
#[no_mangle] pub extern "C" fn c15_13_1w() { types::run(13, 1, false) }
#[no_mangle] pub extern "C" fn c15_13_2() { types::run(13, 2, true) }
#[no_mangle] pub extern "C" fn c15_13_2w() { types::run(13, 2, false) }
#[no_mangle] pub extern "C" fn c15_13_3() { types::run(13, 3, true) }
#[no_mangle] pub extern "C" fn c15_13_3w() { types::run(13, 3, false) }
#[no_mangle] pub extern "C" fn c15_13_4() { types::run(13, 4, true) }
#[no_mangle] pub extern "C" fn c15_13_4w() { types::run(13, 4, false) }
#[no_mangle] pub extern "C" fn c15_13_5() { types::run(13, 5, true) }
#[no_mangle] pub extern "C" fn c15_13_5w() { types::run(13, 5, false) }
#[no_mangle] pub extern "C" fn c15_14_0() { types::run(14, 0, true) }
#[no_mangle] pub extern "C" fn c15_14_0w() { types::run(14, 0, false) }
#[no_mangle] pub extern "C" fn c15_14_1() { types::run(14, 1, true) }
#[no_mangle] pub extern "C" fn c15_14_1w() { types::run(14, 1, false) }
#[no_mangle] pub extern "C" fn c15_14_2() { types::run(14, 2, true) }
#[no_mangle] pub extern "C" fn c15_14_2w() { types::run(14, 2, false) }
#[no_mangle] pub extern "C" fn c15_14_3() { types::run(14, 3, true) }
#[no_mangle] pub extern "C" fn c15_14_3w() { types::run(14, 3, false) }
#[no_mangle] pub extern "C" fn c15_14_4() { types::run(14, 4, true) }
#[no_mangle] pub extern "C" fn c15_14_4w() { types::run(14, 4, false) }
#[no_mangle] pub extern "C" fn c15_14_5() { types::run(14, 5, true) }
#[no_mangle] pub extern "C" fn c15_14_5w() { types::run(14, 5, false) }
#[no_mangle] pub extern "C" fn c15_15_0() { types::run(15, 0, true) }
#[no_mangle] pub extern "C" fn c15_15_0w() { types::run(15, 0, false) }
#[no_mangle] pub extern "C" fn c15_15_1() { types::run(15, 1, true) }
#[no_mangle] pub extern "C" fn c15_15_1w() { types::run(15, 1, false) }
#[no_mangle] pub extern "C" fn c15_15_2() { types::run(15, 2, true) }
#[no_mangle] pub extern "C" fn c15_15_2w() { types::run(15, 2, false) }
#[no_mangle] pub extern "C" fn c15_15_3() { types::run(15, 3, true) }
#[no_mangle] pub extern "C" fn c15_15_3w() { types::run(15, 3, false) }
#[no_mangle] pub extern "C" fn c15_15_4() { types::run(15, 4, true) }
#[no_mangle] pub extern "C" fn c15_15_4w() { types::run(15, 4, false) }
#[no_mangle] pub extern "C" fn c15_15_5() { types::run(15, 5, true) }
#[no_mangle] pub extern "C" fn c15_15_5w() { types::run(15, 5, false) }
#[no_mangle] pub extern "C" fn c15_16_0() { types::run(16, 0, true) }
#[no_mangle] pub extern "C" fn c15_16_0w() { types::run(16, 0, false) }
#[no_mangle] pub extern "C" fn c15_16_1() { types::run(16, 1, true) }
#[no_mangle] pub extern "C" fn c15_16_1w() { types::run(16, 1, false) }
#[no_mangle] pub extern "C" fn c15_16_2() { types::run(16, 2, true) }
#[no_mangle] pub extern "C" fn c15_16_2w() { types::run(16, 2, false) }
#[no_mangle] pub extern "C" fn c15_16_3() { types::run(16, 3, true) }
#[no_mangle] pub extern "C" fn c15_16_3w() { types::run(16, 3, false) }
#[no_mangle] pub extern "C" fn c15_16_4() { types::run(16, 4, true) }
#[no_mangle] pub extern "C" fn c15_16_4w() { types::run(16, 4, false) }
#[no_mangle] pub extern "C" fn c15_16_5() { types::run(16, 5, true) }
#[no_mangle] pub extern "C" fn c15_16_5w() { types::run(16, 5, false) }
#[no_mangle] pub extern "C" fn c15_17_0() { types::run(17, 0, true) }
#[no_mangle] pub extern "C" fn c15_17_0w() { types::run(17, 0, false) }
#[no_mangle] pub extern "C" fn c15_17_1() { types::run(17, 1, true) }
#[no_mangle] pub extern "C" fn c15_17_1w() { types::run(17, 1, false) }
#[no_mangle] pub extern "C" fn c15_17_2() { types::run(17, 2, true) }
#[no_mangle] pub extern "C" fn c15_17_2w() { types::run(17, 2, false) }
#[no_mangle] pub extern "C" fn c15_17_3() { types::run(17, 3, true) }
#[no_mangle] pub extern "C" fn c15_17_3w() { types::run(17, 3, false) }
#[no_mangle] pub extern "C" fn c15_18_0() { types::run(18, 0, true) }
#[no_mangle] pub extern "C" fn c15_18_0w() { types::run(18, 0, false) }
#[no_mangle] pub extern "C" fn c15_18_1() { types::run(18, 1, true) }
#[no_mangle] pub extern "C" fn c15_18_1w() { types::run(18, 1, false) }
#[no_mangle] pub extern "C" fn c15_18_2() { types::run(18, 2, true) }
#[no_mangle] pub extern "C" fn c15_18_2w() { types::run(18, 2, false) }
#[no_mangle] pub extern "C" fn c15_18_3() { types::run(18, 3, true) }
#[no_mangle] pub extern "C" fn c15_18_3w() { types::run(18, 3, false) }
#[no_mangle] pub extern "C" fn c15_18_4() { types::run(18, 4, true) }
#[no_mangle] pub extern "C" fn c15_18_4w() { types::run(18, 4, false) }
#[no_mangle] pub extern "C" fn c15_18_5() { types::run(18, 5, true) }
#[no_mangle] pub extern "C" fn c15_18_5w() { types::run(18, 5, false) }
#[no_mangle] pub extern "C" fn c15_18_6() { types::run(18, 6, true) }
#[no_mangle] pub extern "C" fn c15_18_6w() { types::run(18, 6, false) }
#[no_mangle] pub extern "C" fn c15_18_7() { types::run(18, 7, true) }
#[no_mangle] pub extern "C" fn c15_18_7w() { types::run(18, 7, false) }
#[no_mangle] pub extern "C" fn c15_18_8() { types::run(18, 8, true) }
#[no_mangle] pub extern "C" fn c15_18_8w() { types::run(18, 8, false) }
#[no_mangle] pub extern "C" fn c15_18_9() { types::run(18, 9, true) }
#[no_mangle] pub extern "C" fn c15_18_9w() { types::run(18, 9, false) }
#[no_mangle] pub extern "C" fn c15_19_0() { types::run(19, 0, true) }
#[no_mangle] pub extern "C" fn c15_19_0w() { types::run(19, 0, false) }
#[no_mangle] pub extern "C" fn c15_19_1() { types::run(19, 1, true) }
#[no_mangle] pub extern "C" fn c15_19_1w() { types::run(19, 1, false) }
#[no_mangle] pub extern "C" fn c14_b0() { notation::class_run(0) }
#[no_mangle] pub extern "C" fn c14_p0() { notation::class_pattern(0) }
#[no_mangle] pub extern "C" fn c14_b1() { notation::class_run(1) }
#[no_mangle] pub extern "C" fn c14_p1() { notation::class_pattern(1) }
#[no_mangle] pub extern "C" fn c14_b2() { notation::class_run(2) }
#[no_mangle] pub extern "C" fn c14_p2() { notation::class_pattern(2) }
#[no_mangle] pub extern "C" fn c14_b3() { notation::class_run(3) }
#[no_mangle] pub extern "C" fn c14_p3() { notation::class_pattern(3) }
#[no_mangle] pub extern "C" fn c14_b4() { notation::class_run(4) }
#[no_mangle] pub extern "C" fn c14_p4() { notation::class_pattern(4) }
#[no_mangle] pub extern "C" fn c14_b5() { notation::class_run(5) }
#[no_mangle] pub extern "C" fn c14_p5() { notation::class_pattern(5) }
#[no_mangle] pub extern "C" fn c14_b6() { notation::class_run(6) }
#[no_mangle] pub extern "C" fn c14_p6() { notation::class_pattern(6) }
#[no_mangle] pub extern "C" fn c14_b7() { notation::class_run(7) }
#[no_mangle] pub extern "C" fn c14_p7() { notation::class_pattern(7) }
#[no_mangle] pub extern "C" fn c14_b8() { notation::class_run(8) }
#[no_mangle] pub extern "C" fn c14_p8() { notation::class_pattern(8) }
#[no_mangle] pub extern "C" fn c16_0_0() { names::run(0, 0, true) }
#[no_mangle] pub extern "C" fn c16_0_0w() { names::run(0, 0, false) }
#[no_mangle] pub extern "C" fn c16_0_1() { names::run(0, 1, true) }
#[no_mangle] pub extern "C" fn c16_0_1w() { names::run(0, 1, false) }
#[no_mangle] pub extern "C" fn c16_0_2() { names::run(0, 2, true) }
#[no_mangle] pub extern "C" fn c16_0_2w() { names::run(0, 2, false) }
#[no_mangle] pub extern "C" fn c16_1_0() { names::run(1, 0, true) }
#[no_mangle] pub extern "C" fn c16_1_0w() { names::run(1, 0, false) }
#[no_mangle] pub extern "C" fn c16_1_1() { names::run(1, 1, true) }
#[no_mangle] pub extern "C" fn c16_1_1w() { names::run(1, 1, false) }
#[no_mangle] pub extern "C" fn c16_1_2() { names::run(1, 2, true) }
#[no_mangle] pub extern "C" fn c16_1_2w() { names::run(1, 2, false) }
#[no_mangle] pub extern "C" fn c16_1_3() { names::run(1, 3, true) }
#[no_mangle] pub extern "C" fn c16_1_3w() { names::run(1, 3, false) }
#[no_mangle] pub extern "C" fn c16_1_4() { names::run(1, 4, true) }
#[no_mangle] pub extern "C" fn c16_1_4w() { names::run(1, 4, false) }
#[no_mangle] pub extern "C" fn c16_1_5() { names::run(1, 5, true) }
#[no_mangle] pub extern "C" fn c16_1_5w() { names::run(1, 5, false) }
#[no_mangle] pub extern "C" fn c16_1_6() { names::run(1, 6, true) }
#[no_mangle] pub extern "C" fn c16_1_6w() { names::run(1, 6, false) }
#[no_mangle] pub extern "C" fn c16_1_7() { names::run(1, 7, true) }
#[no_mangle] pub extern "C" fn c16_1_7w() { names::run(1, 7, false) }
#[no_mangle] pub extern "C" fn c16_2_0() { names::run(2, 0, true) }
#[no_mangle] pub extern "C" fn c16_2_0w() { names::run(2, 0, false) }
#[no_mangle] pub extern "C" fn c16_2_1() { names::run(2, 1, true) }
#[no_mangle] pub extern "C" fn c16_2_1w() { names::run(2, 1, false) }
#[no_mangle] pub extern "C" fn c16_3_0() { names::run(3, 0, true) }
#[no_mangle] pub extern "C" fn c16_3_0w() { names::run(3, 0, false) }
#[no_mangle] pub extern "C" fn c16_3_1() { names::run(3, 1, true) }
#[no_mangle] pub extern "C" fn c16_3_1w() { names::run(3, 1, false) }
#[no_mangle] pub extern "C" fn c16_4_0() { names::run(4, 0, true) }
#[no_mangle] pub extern "C" fn c16_4_0w() { names::run(4, 0, false) }
#[no_mangle] pub extern "C" fn c16_4_1() { names::run(4, 1, true) }
#[no_mangle] pub extern "C" fn c16_4_1w() { names::run(4, 1, false) }
#[no_mangle] pub extern "C" fn c16_4_2() { names::run(4, 2, true) }
#[no_mangle] pub extern "C" fn c16_4_2w() { names::run(4, 2, false) }
#[no_mangle] pub extern "C" fn c16_4_3() { names::run(4, 3, true) }
#[no_mangle] pub extern "C" fn c16_4_3w() { names::run(4, 3, false) }
#[no_mangle] pub extern "C" fn c16_4_4() { names::run(4, 4, true) }
#[no_mangle] pub extern "C" fn c16_4_4w() { names::run(4, 4, false) }
#[no_mangle] pub extern "C" fn c16_4_5() { names::run(4, 5, true) }
#[no_mangle] pub extern "C" fn c16_4_5w() { names::run(4, 5, false) }
#[no_mangle] pub extern "C" fn c16_5_0() { names::run(5, 0, true) }
#[no_mangle] pub extern "C" fn c16_5_0w() { names::run(5, 0, false) }
#[no_mangle] pub extern "C" fn c16_5_1() { names::run(5, 1, true) }
#[no_mangle] pub extern "C" fn c16_5_1w() { names::run(5, 1, false) }
#[no_mangle] pub extern "C" fn c16_5_2() { names::run(5, 2, true) }
#[no_mangle] pub extern "C" fn c16_5_2w() { names::run(5, 2, false) }
#[no_mangle] pub extern "C" fn c16_6_0() { names::run(6, 0, true) }
#[no_mangle] pub extern "C" fn c16_6_0w() { names::run(6, 0, false) }
#[no_mangle] pub extern "C" fn c16_6_1() { names::run(6, 1, true) }
#[no_mangle] pub extern "C" fn c16_6_1w() { names::run(6, 1, false) }
#[no_mangle] pub extern "C" fn c16_6_2() { names::run(6, 2, true) }
#[no_mangle] pub extern "C" fn c16_6_2w() { names::run(6, 2, false) }
#[no_mangle] pub extern "C" fn c16_6_3() { names::run(6, 3, true) }
#[no_mangle] pub extern "C" fn c16_6_3w() { names::run(6, 3, false) }
#[no_mangle] pub extern "C" fn c16_6_4() { names::run(6, 4, true) }
#[no_mangle] pub extern "C" fn c16_6_4w() { names::run(6, 4, false) }
#[no_mangle] pub extern "C" fn c16_6_5() { names::run(6, 5, true) }
#[no_mangle] pub extern "C" fn c16_6_5w() { names::run(6, 5, false) }
#[no_mangle] pub extern "C" fn c16_7_0() { names::run(7, 0, true) }
#[no_mangle] pub extern "C" fn c16_7_0w() { names::run(7, 0, false) }
#[no_mangle] pub extern "C" fn c16_7_1() { names::run(7, 1, true) }
#[no_mangle] pub extern "C" fn c16_7_1w() { names::run(7, 1, false) }
#[no_mangle] pub extern "C" fn c16_7_2() { names::run(7, 2, true) }
#[no_mangle] pub extern "C" fn c16_7_2w() { names::run(7, 2, false) }
#[no_mangle] pub extern "C" fn c16_7_3() { names::run(7, 3, true) }
#[no_mangle] pub extern "C" fn c16_7_3w() { names::run(7, 3, false) }
#[no_mangle] pub extern "C" fn c16_7_4() { names::run(7, 4, true) }
#[no_mangle] pub extern "C" fn c16_7_4w() { names::run(7, 4, false) }
#[no_mangle] pub extern "C" fn c16_7_5() { names::run(7, 5, true) }
#[no_mangle] pub extern "C" fn c16_7_5w() { names::run(7, 5, false) }
#[no_mangle] pub extern "C" fn c16_8_0() { names::run(8, 0, true) }
#[no_mangle] pub extern "C" fn c16_8_0w() { names::run(8, 0, false) }
#[no_mangle] pub extern "C" fn c16_8_1() { names::run(8, 1, true) }
#[no_mangle] pub extern "C" fn c16_8_1w() { names::run(8, 1, false) }
#[no_mangle] pub extern "C" fn c16_9_0() { names::run(9, 0, true) }
#[no_mangle] pub extern "C" fn c16_9_0w() { names::run(9, 0, false) }
#[no_mangle] pub extern "C" fn c16_9_1() { names::run(9, 1, true) }
#[no_mangle] pub extern "C" fn c16_9_1w() { names::run(9, 1, false) }
#[no_mangle] pub extern "C" fn c16_9_2() { names::run(9, 2, true) }
#[no_mangle] pub extern "C" fn c16_9_2w() { names::run(9, 2, false) }
#[no_mangle] pub extern "C" fn c16_9_3() { names::run(9, 3, true) }
#[no_mangle] pub extern "C" fn c16_9_3w() { names::run(9, 3, false) }
#[no_mangle] pub extern "C" fn c16_9_4() { names::run(9, 4, true) }
#[no_mangle] pub extern "C" fn c16_9_4w() { names::run(9, 4, false) }
#[no_mangle] pub extern "C" fn c16_9_5() { names::run(9, 5, true) }
#[no_mangle] pub extern "C" fn c16_9_5w() { names::run(9, 5, false) }
#[no_mangle] pub extern "C" fn c18_0_0() { notation::text_run(0, 0) }
#[no_mangle] pub extern "C" fn c18_0_1() { notation::text_run(0, 1) }
#[no_mangle] pub extern "C" fn c18_0_2() { notation::text_run(0, 2) }
#[no_mangle] pub extern "C" fn c18_1_0() { notation::text_run(1, 0) }
#[no_mangle] pub extern "C" fn c18_1_1() { notation::text_run(1, 1) }
#[no_mangle] pub extern "C" fn c18_1_2() { notation::text_run(1, 2) }
#[no_mangle] pub extern "C" fn c18_2_0() { notation::text_run(2, 0) }
#[no_mangle] pub extern "C" fn c18_2_1() { notation::text_run(2, 1) }
#[no_mangle] pub extern "C" fn c18_2_2() { notation::text_run(2, 2) }
#[no_mangle] pub extern "C" fn c18_3_0() { notation::text_run(3, 0) }
#[no_mangle] pub extern "C" fn c18_3_1() { notation::text_run(3, 1) }
#[no_mangle] pub extern "C" fn c18_3_2() { notation::text_run(3, 2) }
#[no_mangle] pub extern "C" fn c18_3_3() { notation::text_run(3, 3) }
#[no_mangle] pub extern "C" fn c18_4_0() { notation::text_run(4, 0) }
#[no_mangle] pub extern "C" fn c18_4_1() { notation::text_run(4, 1) }
#[no_mangle] pub extern "C" fn c18_5_0() { notation::text_run(5, 0) }
#[no_mangle] pub extern "C" fn c18_5_1() { notation::text_run(5, 1) }
#[no_mangle] pub extern "C" fn c18_5_2() { notation::text_run(5, 2) }
#[no_mangle] pub extern "C" fn c18_5_3() { notation::text_run(5, 3) }
#[no_mangle] pub extern "C" fn c18_5_4() { notation::text_run(5, 4) }
#[no_mangle] pub extern "C" fn c18_6_0() { notation::text_run(6, 0) }
#[no_mangle] pub extern "C" fn c18_6_1() { notation::text_run(6, 1) }
#[no_mangle] pub extern "C" fn c18_7_0() { notation::text_run(7, 0) }
#[no_mangle] pub extern "C" fn c18_7_1() { notation::text_run(7, 1) }
#[no_mangle] pub extern "C" fn c18_7_2() { notation::text_run(7, 2) }
#[no_mangle] pub extern "C" fn c18_7_3() { notation::text_run(7, 3) }
#[no_mangle] pub extern "C" fn c18_7_4() { notation::text_run(7, 4) }
#[no_mangle] pub extern "C" fn c18_7_5() { notation::text_run(7, 5) }
#[no_mangle] pub extern "C" fn c18_7_6() { notation::text_run(7, 6) }
#[no_mangle] pub extern "C" fn c18_7_7() { notation::text_run(7, 7) }
#[no_mangle] pub extern "C" fn c18_8_0() { notation::text_run(8, 0) }
#[no_mangle] pub extern "C" fn c18_8_1() { notation::text_run(8, 1) }
#[no_mangle] pub extern "C" fn c18_8_2() { notation::text_run(8, 2) }
#[no_mangle] pub extern "C" fn c18_8_3() { notation::text_run(8, 3) }
#[no_mangle] pub extern "C" fn c18_8_4() { notation::text_run(8, 4) }
#[no_mangle] pub extern "C" fn c18_8_5() { notation::text_run(8, 5) }
#[no_mangle] pub extern "C" fn c18_8_6() { notation::text_run(8, 6) }
#[no_mangle] pub extern "C" fn c18_9_0() { notation::text_run(9, 0) }
#[no_mangle] pub extern "C" fn c18_9_1() { notation::text_run(9, 1) }
#[no_mangle] pub extern "C" fn c18_9_2() { notation::text_run(9, 2) }
#[no_mangle] pub extern "C" fn c18_9_3() { notation::text_run(9, 3) }
#[no_mangle] pub extern "C" fn c18_10_0() { notation::text_run(10, 0) }
#[no_mangle] pub extern "C" fn c18_10_1() { notation::text_run(10, 1) }
#[no_mangle] pub extern "C" fn c18_10_2() { notation::text_run(10, 2) }
#[no_mangle] pub extern "C" fn c18_10_3() { notation::text_run(10, 3) }
#[no_mangle] pub extern "C" fn c18_10_4() { notation::text_run(10, 4) }
#[no_mangle] pub extern "C" fn c18_11_0() { notation::text_run(11, 0) }
#[no_mangle] pub extern "C" fn c18_11_1() { notation::text_run(11, 1) }
#[no_mangle] pub extern "C" fn c19_0_0() { codegen::run(0, 0) }
#[no_mangle] pub extern "C" fn c19_0_1() { codegen::run(0, 1) }
#[no_mangle] pub extern "C" fn c19_0_2() { codegen::run(0, 2) }
#[no_mangle] pub extern "C" fn c19_0_3() { codegen::run(0, 3) }
#[no_mangle] pub extern "C" fn c19_0_4() { codegen::run(0, 4) }
#[no_mangle] pub extern "C" fn c19_0_5() { codegen::run(0, 5) }
#[no_mangle] pub extern "C" fn c19_0_6() { codegen::run(0, 6) }
#[no_mangle] pub extern "C" fn c19_0_7() { codegen::run(0, 7) }
#[no_mangle] pub extern "C" fn c19_0_8() { codegen::run(0, 8) }
#[no_mangle] pub extern "C" fn c19_0_9() { codegen::run(0, 9) }
#[no_mangle] pub extern "C" fn c19_0_10() { codegen::run(0, 10) }
#[no_mangle] pub extern "C" fn c19_0_11() { codegen::run(0, 11) }
#[no_mangle] pub extern "C" fn c19_0_12() { codegen::run(0, 12) }
#[no_mangle] pub extern "C" fn c19_0_13() { codegen::run(0, 13) }
#[no_mangle] pub extern "C" fn c19_0_14() { codegen::run(0, 14) }
#[no_mangle] pub extern "C" fn c19_0_15() { codegen::run(0, 15) }
#[no_mangle] pub extern "C" fn c19_0_16() { codegen::run(0, 16) }
#[no_mangle] pub extern "C" fn c19_0_17() { codegen::run(0, 17) }
#[no_mangle] pub extern "C" fn c19_0_18() { codegen::run(0, 18) }
#[no_mangle] pub extern "C" fn c19_0_19() { codegen::run(0, 19) }
#[no_mangle] pub extern "C" fn c19_1_0() { codegen::run(1, 0) }
#[no_mangle] pub extern "C" fn c19_1_1() { codegen::run(1, 1) }
#[no_mangle] pub extern "C" fn c19_1_2() { codegen::run(1, 2) }
#[no_mangle] pub extern "C" fn c19_1_3() { codegen::run(1, 3) }
#[no_mangle] pub extern "C" fn c19_1_4() { codegen::run(1, 4) }
#[no_mangle] pub extern "C" fn c19_1_5() { codegen::run(1, 5) }
#[no_mangle] pub extern "C" fn c19_1_6() { codegen::run(1, 6) }
#[no_mangle] pub extern "C" fn c19_1_7() { codegen::run(1, 7) }
#[no_mangle] pub extern "C" fn c19_1_8() { codegen::run(1, 8) }
#[no_mangle] pub extern "C" fn c19_1_9() { codegen::run(1, 9) }
#[no_mangle] pub extern "C" fn c19_1_10() { codegen::run(1, 10) }
#[no_mangle] pub extern "C" fn c19_1_11() { codegen::run(1, 11) }
#[no_mangle] pub extern "C" fn c19_1_12() { codegen::run(1, 12) }
#[no_mangle] pub extern "C" fn c19_1_13() { codegen::run(1, 13) }
#[no_mangle] pub extern "C" fn c19_1_14() { codegen::run(1, 14) }
#[no_mangle] pub extern "C" fn c19_1_15() { codegen::run(1, 15) }
#[no_mangle] pub extern "C" fn c19_1_16() { codegen::run(1, 16) }
#[no_mangle] pub extern "C" fn c19_1_17() { codegen::run(1, 17) }
#[no_mangle] pub extern "C" fn c19_1_18() { codegen::run(1, 18) }
#[no_mangle] pub extern "C" fn c19_1_19() { codegen::run(1, 19) }
#[no_mangle] pub extern "C" fn c19_1_20() { codegen::run(1, 20) }
#[no_mangle] pub extern "C" fn c19_1_21() { codegen::run(1, 21) }
#[no_mangle] pub extern "C" fn c19_1_22() { codegen::run(1, 22) }
#[no_mangle] pub extern "C" fn c19_1_23() { codegen::run(1, 23) }
#[no_mangle] pub extern "C" fn c19_2_0() { codegen::run(2, 0) }
#[no_mangle] pub extern "C" fn c19_2_1() { codegen::run(2, 1) }
#[no_mangle] pub extern "C" fn c19_2_2() { codegen::run(2, 2) }
#[no_mangle] pub extern "C" fn c19_2_3() { codegen::run(2, 3) }
#[no_mangle] pub extern "C" fn c19_2_4() { codegen::run(2, 4) }
#[no_mangle] pub extern "C" fn c19_2_5() { codegen::run(2, 5) }
#[no_mangle] pub extern "C" fn c19_2_6() { codegen::run(2, 6) }
#[no_mangle] pub extern "C" fn c19_2_7() { codegen::run(2, 7) }
#[no_mangle] pub extern "C" fn c19_2_8() { codegen::run(2, 8) }
#[no_mangle] pub extern "C" fn c19_2_9() { codegen::run(2, 9) }
#[no_mangle] pub extern "C" fn c19_2_10() { codegen::run(2, 10) }
#[no_mangle] pub extern "C" fn c19_2_11() { codegen::run(2, 11) }
#[no_mangle] pub extern "C" fn c19_3_0() { codegen::run(3, 0) }
#[no_mangle] pub extern "C" fn c19_3_1() { codegen::run(3, 1) }
#[no_mangle] pub extern "C" fn c19_3_2() { codegen::run(3, 2) }
#[no_mangle] pub extern "C" fn c19_3_3() { codegen::run(3, 3) }
#[no_mangle] pub extern "C" fn c19_3_4() { codegen::run(3, 4) }
#[no_mangle] pub extern "C" fn c19_3_5() { codegen::run(3, 5) }
#[no_mangle] pub extern "C" fn c19_3_6() { codegen::run(3, 6) }
#[no_mangle] pub extern "C" fn c19_3_7() { codegen::run(3, 7) }
#[no_mangle] pub extern "C" fn c19_4_0() { codegen::run(4, 0) }
#[no_mangle] pub extern "C" fn c19_4_1() { codegen::run(4, 1) }
#[no_mangle] pub extern "C" fn c19_4_2() { codegen::run(4, 2) }
#[no_mangle] pub extern "C" fn c19_4_3() { codegen::run(4, 3) }
#[no_mangle] pub extern "C" fn c19_4_4() { codegen::run(4, 4) }
#[no_mangle] pub extern "C" fn c19_4_5() { codegen::run(4, 5) }
#[no_mangle] pub extern "C" fn c19_4_6() { codegen::run(4, 6) }
#[no_mangle] pub extern "C" fn c19_4_7() { codegen::run(4, 7) }
#[no_mangle] pub extern "C" fn c19_4_8() { codegen::run(4, 8) }
#[no_mangle] pub extern "C" fn c19_4_9() { codegen::run(4, 9) }
#[no_mangle] pub extern "C" fn c19_4_10() { codegen::run(4, 10) }
#[no_mangle] pub extern "C" fn c19_4_11() { codegen::run(4, 11) }
#[no_mangle] pub extern "C" fn c19_4_12() { codegen::run(4, 12) }
#[no_mangle] pub extern "C" fn c19_4_13() { codegen::run(4, 13) }
#[no_mangle] pub extern "C" fn c19_4_14() { codegen::run(4, 14) }
#[no_mangle] pub extern "C" fn c19_4_15() { codegen::run(4, 15) }
#[no_mangle] pub extern "C" fn c19_4_16() { codegen::run(4, 16) }
#[no_mangle] pub extern "C" fn c19_4_17() { codegen::run(4, 17) }
#[no_mangle] pub extern "C" fn c19_4_18() { codegen::run(4, 18) }
#[no_mangle] pub extern "C" fn c19_4_19() { codegen::run(4, 19) }
#[no_mangle] pub extern "C" fn c19_4_20() { codegen::run(4, 20) }
#[no_mangle] pub extern "C" fn c19_4_21() { codegen::run(4, 21) }
#[no_mangle] pub extern "C" fn c19_4_22() { codegen::run(4, 22) }
#[no_mangle] pub extern "C" fn c19_4_23() { codegen::run(4, 23) }
#[no_mangle] pub extern "C" fn c19_4_24() { codegen::run(4, 24) }
#[no_mangle] pub extern "C" fn c19_4_25() { codegen::run(4, 25) }
#[no_mangle] pub extern "C" fn c19_4_26() { codegen::run(4, 26) }
#[no_mangle] pub extern "C" fn c19_4_27() { codegen::run(4, 27) }
#[no_mangle] pub extern "C" fn c19_4_28() { codegen::run(4, 28) }
#[no_mangle] pub extern "C" fn c19_4_29() { codegen::run(4, 29) }
#[no_mangle] pub extern "C" fn c19_4_30() { codegen::run(4, 30) }
#[no_mangle] pub extern "C" fn c19_4_31() { codegen::run(4, 31) }
#[no_mangle] pub extern "C" fn c19_4_32() { codegen::run(4, 32) }
#[no_mangle] pub extern "C" fn c19_4_33() { codegen::run(4, 33) }
#[no_mangle] pub extern "C" fn c19_4_34() { codegen::run(4, 34) }
#[no_mangle] pub extern "C" fn c19_4_35() { codegen::run(4, 35) }
#[no_mangle] pub extern "C" fn c19_4_36() { codegen::run(4, 36) }
#[no_mangle] pub extern "C" fn c19_4_37() { codegen::run(4, 37) }
#[no_mangle] pub extern "C" fn c19_4_38() { codegen::run(4, 38) }
#[no_mangle] pub extern "C" fn c19_4_39() { codegen::run(4, 39) }
#[no_mangle] pub extern "C" fn c19_4_40() { codegen::run(4, 40) }
#[no_mangle] pub extern "C" fn c19_4_41() { codegen::run(4, 41) }
#[no_mangle] pub extern "C" fn c19_4_42() { codegen::run(4, 42) }
#[no_mangle] pub extern "C" fn c19_4_43() { codegen::run(4, 43) }
#[no_mangle] pub extern "C" fn c19_4_44() { codegen::run(4, 44) }
#[no_mangle] pub extern "C" fn c19_4_45() { codegen::run(4, 45) }
#[no_mangle] pub extern "C" fn c19_4_46() { codegen::run(4, 46) }
#[no_mangle] pub extern "C" fn c19_4_47() { codegen::run(4, 47) }
#[no_mangle] pub extern "C" fn c19_4_48() { codegen::run(4, 48) }
#[no_mangle] pub extern "C" fn c19_4_49() { codegen::run(4, 49) }
#[no_mangle] pub extern "C" fn c19_4_50() { codegen::run(4, 50) }
#[no_mangle] pub extern "C" fn c19_4_51() { codegen::run(4, 51) }
#[no_mangle] pub extern "C" fn c19_4_52() { codegen::run(4, 52) }
#[no_mangle] pub extern "C" fn c19_4_53() { codegen::run(4, 53) }
#[no_mangle] pub extern "C" fn c19_4_54() { codegen::run(4, 54) }
#[no_mangle] pub extern "C" fn c19_4_55() { codegen::run(4, 55) }
#[no_mangle] pub extern "C" fn c19_4_56() { codegen::run(4, 56) }
#[no_mangle] pub extern "C" fn c19_4_57() { codegen::run(4, 57) }
#[no_mangle] pub extern "C" fn c19_4_58() { codegen::run(4, 58) }
#[no_mangle] pub extern "C" fn c19_4_59() { codegen::run(4, 59) }
#[no_mangle] pub extern "C" fn c19_4_60() { codegen::run(4, 60) }
#[no_mangle] pub extern "C" fn c19_4_61() { codegen::run(4, 61) }
#[no_mangle] pub extern "C" fn c19_4_62() { codegen::run(4, 62) }
#[no_mangle] pub extern "C" fn c19_4_63() { codegen::run(4, 63) }
#[no_mangle] pub extern "C" fn c19_4_64() { codegen::run(4, 64) }
#[no_mangle] pub extern "C" fn c19_4_65() { codegen::run(4, 65) }
#[no_mangle] pub extern "C" fn c19_4_66() { codegen::run(4, 66) }
#[no_mangle] pub extern "C" fn c19_4_67() { codegen::run(4, 67) }
#[no_mangle] pub extern "C" fn c19_4_68() { codegen::run(4, 68) }
#[no_mangle] pub extern "C" fn c19_4_69() { codegen::run(4, 69) }
#[no_mangle] pub extern "C" fn c19_4_70() { codegen::run(4, 70) }
#[no_mangle] pub extern "C" fn c19_4_71() { codegen::run(4, 71) }
#[no_mangle] pub extern "C" fn c19_4_72() { codegen::run(4, 72) }
#[no_mangle] pub extern "C" fn c19_4_73() { codegen::run(4, 73) }
#[no_mangle] pub extern "C" fn c19_4_74() { codegen::run(4, 74) }
#[no_mangle] pub extern "C" fn c19_4_75() { codegen::run(4, 75) }
#[no_mangle] pub extern "C" fn c19_4_76() { codegen::run(4, 76) }
#[no_mangle] pub extern "C" fn c19_4_77() { codegen::run(4, 77) }
#[no_mangle] pub extern "C" fn c19_4_78() { codegen::run(4, 78) }
#[no_mangle] pub extern "C" fn c19_4_79() { codegen::run(4, 79) }
#[no_mangle] pub extern "C" fn c19_4_80() { codegen::run(4, 80) }
#[no_mangle] pub extern "C" fn c19_4_81() { codegen::run(4, 81) }
#[no_mangle] pub extern "C" fn c19_4_82() { codegen::run(4, 82) }
#[no_mangle] pub extern "C" fn c19_4_83() { codegen::run(4, 83) }
#[no_mangle] pub extern "C" fn c19_4_84() { codegen::run(4, 84) }
#[no_mangle] pub extern "C" fn c19_4_85() { codegen::run(4, 85) }
#[no_mangle] pub extern "C" fn c19_4_86() { codegen::run(4, 86) }
#[no_mangle] pub extern "C" fn c19_4_87() { codegen::run(4, 87) }
#[no_mangle] pub extern "C" fn c19_4_88() { codegen::run(4, 88) }
#[no_mangle] pub extern "C" fn c19_4_89() { codegen::run(4, 89) }
#[no_mangle] pub extern "C" fn c19_4_90() { codegen::run(4, 90) }
#[no_mangle] pub extern "C" fn c19_4_91() { codegen::run(4, 91) }
#[no_mangle] pub extern "C" fn c19_4_92() { codegen::run(4, 92) }
#[no_mangle] pub extern "C" fn c19_4_93() { codegen::run(4, 93) }
#[no_mangle] pub extern "C" fn c19_4_94() { codegen::run(4, 94) }
#[no_mangle] pub extern "C" fn c19_4_95() { codegen::run(4, 95) }
#[no_mangle] pub extern "C" fn c19_4_96() { codegen::run(4, 96) }
#[no_mangle] pub extern "C" fn c19_4_97() { codegen::run(4, 97) }
#[no_mangle] pub extern "C" fn c19_4_98() { codegen::run(4, 98) }
#[no_mangle] pub extern "C" fn c19_4_99() { codegen::run(4, 99) }
#[no_mangle] pub extern "C" fn c19_4_100() { codegen::run(4, 100) }
#[no_mangle] pub extern "C" fn c19_4_101() { codegen::run(4, 101) }
#[no_mangle] pub extern "C" fn c19_4_102() { codegen::run(4, 102) }
#[no_mangle] pub extern "C" fn c19_4_103() { codegen::run(4, 103) }
#[no_mangle] pub extern "C" fn c19_4_104() { codegen::run(4, 104) }
#[no_mangle] pub extern "C" fn c19_4_105() { codegen::run(4, 105) }
#[no_mangle] pub extern "C" fn c19_4_106() { codegen::run(4, 106) }
#[no_mangle] pub extern "C" fn c19_4_107() { codegen::run(4, 107) }
#[no_mangle] pub extern "C" fn c19_4_108() { codegen::run(4, 108) }
#[no_mangle] pub extern "C" fn c19_4_109() { codegen::run(4, 109) }
#[no_mangle] pub extern "C" fn c19_4_110() { codegen::run(4, 110) }
#[no_mangle] pub extern "C" fn c19_4_111() { codegen::run(4, 111) }
#[no_mangle] pub extern "C" fn c19_4_112() { codegen::run(4, 112) }
#[no_mangle] pub extern "C" fn c19_4_113() { codegen::run(4, 113) }
#[no_mangle] pub extern "C" fn c19_4_114() { codegen::run(4, 114) }
#[no_mangle] pub extern "C" fn c19_4_115() { codegen::run(4, 115) }
#[no_mangle] pub extern "C" fn c19_4_116() { codegen::run(4, 116) }
#[no_mangle] pub extern "C" fn c19_4_117() { codegen::run(4, 117) }
#[no_mangle] pub extern "C" fn c19_4_118() { codegen::run(4, 118) }
#[no_mangle] pub extern "C" fn c19_4_119() { codegen::run(4, 119) }
#[no_mangle] pub extern "C" fn c19_4_120() { codegen::run(4, 120) }
#[no_mangle] pub extern "C" fn c19_4_121() { codegen::run(4, 121) }
#[no_mangle] pub extern "C" fn c19_4_122() { codegen::run(4, 122) }
#[no_mangle] pub extern "C" fn c19_4_123() { codegen::run(4, 123) }
#[no_mangle] pub extern "C" fn c19_4_124() { codegen::run(4, 124) }
#[no_mangle] pub extern "C" fn c19_4_125() { codegen::run(4, 125) }
#[no_mangle] pub extern "C" fn c19_4_126() { codegen::run(4, 126) }
#[no_mangle] pub extern "C" fn c19_4_127() { codegen::run(4, 127) }
#[no_mangle] pub extern "C" fn c19_4_128() { codegen::run(4, 128) }
#[no_mangle] pub extern "C" fn c19_4_129() { codegen::run(4, 129) }
#[no_mangle] pub extern "C" fn c19_4_130() { codegen::run(4, 130) }
#[no_mangle] pub extern "C" fn c19_4_131() { codegen::run(4, 131) }
#[no_mangle] pub extern "C" fn c19_4_132() { codegen::run(4, 132) }
#[no_mangle] pub extern "C" fn c19_4_133() { codegen::run(4, 133) }
#[no_mangle] pub extern "C" fn c19_4_134() { codegen::run(4, 134) }
#[no_mangle] pub extern "C" fn c19_4_135() { codegen::run(4, 135) }
#[no_mangle] pub extern "C" fn c19_4_136() { codegen::run(4, 136) }
#[no_mangle] pub extern "C" fn c19_4_137() { codegen::run(4, 137) }
#[no_mangle] pub extern "C" fn c19_4_138() { codegen::run(4, 138) }
#[no_mangle] pub extern "C" fn c19_4_139() { codegen::run(4, 139) }
#[no_mangle] pub extern "C" fn c19_4_140() { codegen::run(4, 140) }
#[no_mangle] pub extern "C" fn c19_4_141() { codegen::run(4, 141) }
#[no_mangle] pub extern "C" fn c19_4_142() { codegen::run(4, 142) }
#[no_mangle] pub extern "C" fn c19_4_143() { codegen::run(4, 143) }
#[no_mangle] pub extern "C" fn c19_4_144() { codegen::run(4, 144) }
#[no_mangle] pub extern "C" fn c19_4_145() { codegen::run(4, 145) }
#[no_mangle] pub extern "C" fn c19_4_146() { codegen::run(4, 146) }
#[no_mangle] pub extern "C" fn c19_4_147() { codegen::run(4, 147) }
#[no_mangle] pub extern "C" fn c19_4_148() { codegen::run(4, 148) }
#[no_mangle] pub extern "C" fn c19_4_149() { codegen::run(4, 149) }
#[no_mangle] pub extern "C" fn c19_4_150() { codegen::run(4, 150) }
#[no_mangle] pub extern "C" fn c19_4_151() { codegen::run(4, 151) }
#[no_mangle] pub extern "C" fn c19_4_152() { codegen::run(4, 152) }
#[no_mangle] pub extern "C" fn c19_4_153() { codegen::run(4, 153) }
#[no_mangle] pub extern "C" fn c19_4_154() { codegen::run(4, 154) }
#[no_mangle] pub extern "C" fn c19_4_155() { codegen::run(4, 155) }
#[no_mangle] pub extern "C" fn c19_4_156() { codegen::run(4, 156) }
#[no_mangle] pub extern "C" fn c19_4_157() { codegen::run(4, 157) }
#[no_mangle] pub extern "C" fn c19_4_158() { codegen::run(4, 158) }
#[no_mangle] pub extern "C" fn c19_4_159() { codegen::run(4, 159) }
#[no_mangle] pub extern "C" fn c19_4_160() { codegen::run(4, 160) }
#[no_mangle] pub extern "C" fn c19_4_161() { codegen::run(4, 161) }
#[no_mangle] pub extern "C" fn c19_4_162() { codegen::run(4, 162) }
#[no_mangle] pub extern "C" fn c19_4_163() { codegen::run(4, 163) }
#[no_mangle] pub extern "C" fn c19_4_164() { codegen::run(4, 164) }
#[no_mangle] pub extern "C" fn c19_4_165() { codegen::run(4, 165) }
#[no_mangle] pub extern "C" fn c19_4_166() { codegen::run(4, 166) }
#[no_mangle] pub extern "C" fn c19_4_167() { codegen::run(4, 167) }
#[no_mangle] pub extern "C" fn c19_4_168() { codegen::run(4, 168) }
#[no_mangle] pub extern "C" fn c19_4_169() { codegen::run(4, 169) }
#[no_mangle] pub extern "C" fn c19_4_170() { codegen::run(4, 170) }
#[no_mangle] pub extern "C" fn c19_4_171() { codegen::run(4, 171) }
#[no_mangle] pub extern "C" fn c19_4_172() { codegen::run(4, 172) }
#[no_mangle] pub extern "C" fn c19_4_173() { codegen::run(4, 173) }
#[no_mangle] pub extern "C" fn c19_4_174() { codegen::run(4, 174) }
#[no_mangle] pub extern "C" fn c19_4_175() { codegen::run(4, 175) }
#[no_mangle] pub extern "C" fn c19_4_176() { codegen::run(4, 176) }
#[no_mangle] pub extern "C" fn c19_4_177() { codegen::run(4, 177) }
#[no_mangle] pub extern "C" fn c19_4_178() { codegen::run(4, 178) }
#[no_mangle] pub extern "C" fn c19_4_179() { codegen::run(4, 179) }
#[no_mangle] pub extern "C" fn c19_4_180() { codegen::run(4, 180) }
#[no_mangle] pub extern "C" fn c19_4_181() { codegen::run(4, 181) }
#[no_mangle] pub extern "C" fn c19_4_182() { codegen::run(4, 182) }
#[no_mangle] pub extern "C" fn c19_4_183() { codegen::run(4, 183) }
#[no_mangle] pub extern "C" fn c19_4_184() { codegen::run(4, 184) }
#[no_mangle] pub extern "C" fn c19_4_185() { codegen::run(4, 185) }
#[no_mangle] pub extern "C" fn c19_4_186() { codegen::run(4, 186) }
#[no_mangle] pub extern "C" fn c19_4_187() { codegen::run(4, 187) }
#[no_mangle] pub extern "C" fn c19_4_188() { codegen::run(4, 188) }
#[no_mangle] pub extern "C" fn c19_4_189() { codegen::run(4, 189) }
#[no_mangle] pub extern "C" fn c19_4_190() { codegen::run(4, 190) }
#[no_mangle] pub extern "C" fn c19_4_191() { codegen::run(4, 191) }
#[no_mangle] pub extern "C" fn c19_4_192() { codegen::run(4, 192) }
#[no_mangle] pub extern "C" fn c19_4_193() { codegen::run(4, 193) }
#[no_mangle] pub extern "C" fn c19_4_194() { codegen::run(4, 194) }
#[no_mangle] pub extern "C" fn c19_4_195() { codegen::run(4, 195) }
#[no_mangle] pub extern "C" fn c19_4_196() { codegen::run(4, 196) }
#[no_mangle] pub extern "C" fn c19_4_197() { codegen::run(4, 197) }
#[no_mangle] pub extern "C" fn c19_4_198() { codegen::run(4, 198) }
#[no_mangle] pub extern "C" fn c19_4_199() { codegen::run(4, 199) }
#[no_mangle] pub extern "C" fn c19_4_200() { codegen::run(4, 200) }
#[no_mangle] pub extern "C" fn c19_4_201() { codegen::run(4, 201) }
#[no_mangle] pub extern "C" fn c19_4_202() { codegen::run(4, 202) }
#[no_mangle] pub extern "C" fn c19_4_203() { codegen::run(4, 203) }
#[no_mangle] pub extern "C" fn c19_4_204() { codegen::run(4, 204) }
#[no_mangle] pub extern "C" fn c19_4_205() { codegen::run(4, 205) }
#[no_mangle] pub extern "C" fn c19_4_206() { codegen::run(4, 206) }
#[no_mangle] pub extern "C" fn c19_4_207() { codegen::run(4, 207) }
#[no_mangle] pub extern "C" fn c19_4_208() { codegen::run(4, 208) }
#[no_mangle] pub extern "C" fn c19_4_209() { codegen::run(4, 209) }
#[no_mangle] pub extern "C" fn c19_4_210() { codegen::run(4, 210) }
#[no_mangle] pub extern "C" fn c19_4_211() { codegen::run(4, 211) }
#[no_mangle] pub extern "C" fn c19_4_212() { codegen::run(4, 212) }
#[no_mangle] pub extern "C" fn c19_4_213() { codegen::run(4, 213) }
#[no_mangle] pub extern "C" fn c19_4_214() { codegen::run(4, 214) }
#[no_mangle] pub extern "C" fn c19_4_215() { codegen::run(4, 215) }
#[no_mangle] pub extern "C" fn c19_4_216() { codegen::run(4, 216) }
#[no_mangle] pub extern "C" fn c19_4_217() { codegen::run(4, 217) }
#[no_mangle] pub extern "C" fn c19_4_218() { codegen::run(4, 218) }
#[no_mangle] pub extern "C" fn c19_4_219() { codegen::run(4, 219) }
#[no_mangle] pub extern "C" fn c19_4_220() { codegen::run(4, 220) }
#[no_mangle] pub extern "C" fn c19_4_221() { codegen::run(4, 221) }
#[no_mangle] pub extern "C" fn c19_4_222() { codegen::run(4, 222) }
#[no_mangle] pub extern "C" fn c19_4_223() { codegen::run(4, 223) }
#[no_mangle] pub extern "C" fn c19_4_224() { codegen::run(4, 224) }
#[no_mangle] pub extern "C" fn c19_4_225() { codegen::run(4, 225) }
#[no_mangle] pub extern "C" fn c19_4_226() { codegen::run(4, 226) }
#[no_mangle] pub extern "C" fn c19_4_227() { codegen::run(4, 227) }
#[no_mangle] pub extern "C" fn c19_4_228() { codegen::run(4, 228) }
#[no_mangle] pub extern "C" fn c19_4_229() { codegen::run(4, 229) }
#[no_mangle] pub extern "C" fn c19_4_230() { codegen::run(4, 230) }
#[no_mangle] pub extern "C" fn c19_4_231() { codegen::run(4, 231) }
#[no_mangle] pub extern "C" fn c19_4_232() { codegen::run(4, 232) }
#[no_mangle] pub extern "C" fn c19_4_233() { codegen::run(4, 233) }
#[no_mangle] pub extern "C" fn c19_4_234() { codegen::run(4, 234) }
#[no_mangle] pub extern "C" fn c19_4_235() { codegen::run(4, 235) }
#[no_mangle] pub extern "C" fn c19_4_236() { codegen::run(4, 236) }
#[no_mangle] pub extern "C" fn c19_4_237() { codegen::run(4, 237) }
#[no_mangle] pub extern "C" fn c19_4_238() { codegen::run(4, 238) }
#[no_mangle] pub extern "C" fn c19_4_239() { codegen::run(4, 239) }
#[no_mangle] pub extern "C" fn c19_4_240() { codegen::run(4, 240) }
#[no_mangle] pub extern "C" fn c19_4_241() { codegen::run(4, 241) }
#[no_mangle] pub extern "C" fn c19_4_242() { codegen::run(4, 242) }
#[no_mangle] pub extern "C" fn c19_4_243() { codegen::run(4, 243) }
#[no_mangle] pub extern "C" fn c19_4_244() { codegen::run(4, 244) }
#[no_mangle] pub extern "C" fn c19_4_245() { codegen::run(4, 245) }
#[no_mangle] pub extern "C" fn c19_4_246() { codegen::run(4, 246) }
#[no_mangle] pub extern "C" fn c19_4_247() { codegen::run(4, 247) }
#[no_mangle] pub extern "C" fn c19_4_248() { codegen::run(4, 248) }
#[no_mangle] pub extern "C" fn c19_4_249() { codegen::run(4, 249) }
#[no_mangle] pub extern "C" fn c19_4_250() { codegen::run(4, 250) }
#[no_mangle] pub extern "C" fn c19_4_251() { codegen::run(4, 251) }
#[no_mangle] pub extern "C" fn c19_4_252() { codegen::run(4, 252) }
#[no_mangle] pub extern "C" fn c19_4_253() { codegen::run(4, 253) }
#[no_mangle] pub extern "C" fn c19_4_254() { codegen::run(4, 254) }
#[no_mangle] pub extern "C" fn c19_4_255() { codegen::run(4, 255) }
#[no_mangle] pub extern "C" fn c19_4_256() { codegen::run(4, 256) }
#[no_mangle] pub extern "C" fn c19_4_257() { codegen::run(4, 257) }
#[no_mangle] pub extern "C" fn c19_4_258() { codegen::run(4, 258) }
#[no_mangle] pub extern "C" fn c19_4_259() { codegen::run(4, 259) }
#[no_mangle] pub extern "C" fn c19_4_260() { codegen::run(4, 260) }
#[no_mangle] pub extern "C" fn c19_4_261() { codegen::run(4, 261) }
#[no_mangle] pub extern "C" fn c19_4_262() { codegen::run(4, 262) }
#[no_mangle] pub extern "C" fn c19_4_263() { codegen::run(4, 263) }
#[no_mangle] pub extern "C" fn c19_4_264() { codegen::run(4, 264) }
#[no_mangle] pub extern "C" fn c19_4_265() { codegen::run(4, 265) }
#[no_mangle] pub extern "C" fn c19_4_266() { codegen::run(4, 266) }
#[no_mangle] pub extern "C" fn c19_4_267() { codegen::run(4, 267) }
#[no_mangle] pub extern "C" fn c19_4_268() { codegen::run(4, 268) }
#[no_mangle] pub extern "C" fn c19_4_269() { codegen::run(4, 269) }
#[no_mangle] pub extern "C" fn c19_4_270() { codegen::run(4, 270) }
#[no_mangle] pub extern "C" fn c19_4_271() { codegen::run(4, 271) }
#[no_mangle] pub extern "C" fn c19_4_272() { codegen::run(4, 272) }
#[no_mangle] pub extern "C" fn c19_4_273() { codegen::run(4, 273) }
#[no_mangle] pub extern "C" fn c19_4_274() { codegen::run(4, 274) }
#[no_mangle] pub extern "C" fn c19_4_275() { codegen::run(4, 275) }
#[no_mangle] pub extern "C" fn c19_4_276() { codegen::run(4, 276) }
#[no_mangle] pub extern "C" fn c19_4_277() { codegen::run(4, 277) }
#[no_mangle] pub extern "C" fn c19_4_278() { codegen::run(4, 278) }
#[no_mangle] pub extern "C" fn c19_4_279() { codegen::run(4, 279) }
#[no_mangle] pub extern "C" fn c19_4_280() { codegen::run(4, 280) }
#[no_mangle] pub extern "C" fn c19_4_281() { codegen::run(4, 281) }
#[no_mangle] pub extern "C" fn c19_4_282() { codegen::run(4, 282) }
#[no_mangle] pub extern "C" fn c19_4_283() { codegen::run(4, 283) }
#[no_mangle] pub extern "C" fn c19_4_284() { codegen::run(4, 284) }
#[no_mangle] pub extern "C" fn c19_4_285() { codegen::run(4, 285) }
#[no_mangle] pub extern "C" fn c19_4_286() { codegen::run(4, 286) }
#[no_mangle] pub extern "C" fn c19_4_287() { codegen::run(4, 287) }
#[no_mangle] pub extern "C" fn c19_4_288() { codegen::run(4, 288) }
#[no_mangle] pub extern "C" fn c19_4_289() { codegen::run(4, 289) }
#[no_mangle] pub extern "C" fn c19_4_290() { codegen::run(4, 290) }
#[no_mangle] pub extern "C" fn c19_4_291() { codegen::run(4, 291) }
#[no_mangle] pub extern "C" fn c19_4_292() { codegen::run(4, 292) }
#[no_mangle] pub extern "C" fn c19_4_293() { codegen::run(4, 293) }
#[no_mangle] pub extern "C" fn c19_4_294() { codegen::run(4, 294) }
#[no_mangle] pub extern "C" fn c19_4_295() { codegen::run(4, 295) }
#[no_mangle] pub extern "C" fn c19_4_296() { codegen::run(4, 296) }
#[no_mangle] pub extern "C" fn c19_4_297() { codegen::run(4, 297) }
#[no_mangle] pub extern "C" fn c19_4_298() { codegen::run(4, 298) }
#[no_mangle] pub extern "C" fn c19_4_299() { codegen::run(4, 299) }
#[no_mangle] pub extern "C" fn c19_4_300() { codegen::run(4, 300) }
#[no_mangle] pub extern "C" fn c19_4_301() { codegen::run(4, 301) }
#[no_mangle] pub extern "C" fn c19_4_302() { codegen::run(4, 302) }
#[no_mangle] pub extern "C" fn c19_4_303() { codegen::run(4, 303) }
#[no_mangle] pub extern "C" fn c19_4_304() { codegen::run(4, 304) }
#[no_mangle] pub extern "C" fn c19_4_305() { codegen::run(4, 305) }
#[no_mangle] pub extern "C" fn c19_4_306() { codegen::run(4, 306) }
#[no_mangle] pub extern "C" fn c19_4_307() { codegen::run(4, 307) }
#[no_mangle] pub extern "C" fn c19_4_308() { codegen::run(4, 308) }
#[no_mangle] pub extern "C" fn c19_4_309() { codegen::run(4, 309) }
#[no_mangle] pub extern "C" fn c19_4_310() { codegen::run(4, 310) }
#[no_mangle] pub extern "C" fn c19_4_311() { codegen::run(4, 311) }
#[no_mangle] pub extern "C" fn c19_4_312() { codegen::run(4, 312) }
#[no_mangle] pub extern "C" fn c19_4_313() { codegen::run(4, 313) }
#[no_mangle] pub extern "C" fn c19_4_314() { codegen::run(4, 314) }
#[no_mangle] pub extern "C" fn c19_4_315() { codegen::run(4, 315) }
#[no_mangle] pub extern "C" fn c19_4_316() { codegen::run(4, 316) }
#[no_mangle] pub extern "C" fn c19_4_317() { codegen::run(4, 317) }
#[no_mangle] pub extern "C" fn c19_4_318() { codegen::run(4, 318) }
#[no_mangle] pub extern "C" fn c19_4_319() { codegen::run(4, 319) }
#[no_mangle] pub extern "C" fn c19_4_320() { codegen::run(4, 320) }
#[no_mangle] pub extern "C" fn c19_4_321() { codegen::run(4, 321) }
#[no_mangle] pub extern "C" fn c19_4_322() { codegen::run(4, 322) }
#[no_mangle] pub extern "C" fn c19_4_323() { codegen::run(4, 323) }
#[no_mangle] pub extern "C" fn c19_4_324() { codegen::run(4, 324) }
#[no_mangle] pub extern "C" fn c19_4_325() { codegen::run(4, 325) }
#[no_mangle] pub extern "C" fn c19_4_326() { codegen::run(4, 326) }
#[no_mangle] pub extern "C" fn c19_4_327() { codegen::run(4, 327) }
#[no_mangle] pub extern "C" fn c19_4_328() { codegen::run(4, 328) }
#[no_mangle] pub extern "C" fn c19_4_329() { codegen::run(4, 329) }
#[no_mangle] pub extern "C" fn c19_4_330() { codegen::run(4, 330) }
#[no_mangle] pub extern "C" fn c19_4_331() { codegen::run(4, 331) }
#[no_mangle] pub extern "C" fn c19_4_332() { codegen::run(4, 332) }
#[no_mangle] pub extern "C" fn c19_4_333() { codegen::run(4, 333) }
#[no_mangle] pub extern "C" fn c19_4_334() { codegen::run(4, 334) }
#[no_mangle] pub extern "C" fn c19_4_335() { codegen::run(4, 335) }
#[no_mangle] pub extern "C" fn c19_4_336() { codegen::run(4, 336) }
#[no_mangle] pub extern "C" fn c19_4_337() { codegen::run(4, 337) }
#[no_mangle] pub extern "C" fn c19_4_338() { codegen::run(4, 338) }
#[no_mangle] pub extern "C" fn c19_4_339() { codegen::run(4, 339) }
#[no_mangle] pub extern "C" fn c19_4_340() { codegen::run(4, 340) }
#[no_mangle] pub extern "C" fn c19_4_341() { codegen::run(4, 341) }
#[no_mangle] pub extern "C" fn c19_4_342() { codegen::run(4, 342) }
#[no_mangle] pub extern "C" fn c19_4_343() { codegen::run(4, 343) }
#[no_mangle] pub extern "C" fn c19_4_344() { codegen::run(4, 344) }
#[no_mangle] pub extern "C" fn c19_4_345() { codegen::run(4, 345) }
#[no_mangle] pub extern "C" fn c19_4_346() { codegen::run(4, 346) }
#[no_mangle] pub extern "C" fn c19_4_347() { codegen::run(4, 347) }
#[no_mangle] pub extern "C" fn c19_4_348() { codegen::run(4, 348) }
#[no_mangle] pub extern "C" fn c19_4_349() { codegen::run(4, 349) }
#[no_mangle] pub extern "C" fn c19_4_350() { codegen::run(4, 350) }
#[no_mangle] pub extern "C" fn c19_4_351() { codegen::run(4, 351) }
#[no_mangle] pub extern "C" fn c19_4_352() { codegen::run(4, 352) }
#[no_mangle] pub extern "C" fn c19_4_353() { codegen::run(4, 353) }
#[no_mangle] pub extern "C" fn c19_4_354() { codegen::run(4, 354) }
#[no_mangle] pub extern "C" fn c19_4_355() { codegen::run(4, 355) }
#[no_mangle] pub extern "C" fn c19_4_356() { codegen::run(4, 356) }
#[no_mangle] pub extern "C" fn c19_4_357() { codegen::run(4, 357) }
#[no_mangle] pub extern "C" fn c19_4_358() { codegen::run(4, 358) }
#[no_mangle] pub extern "C" fn c19_4_359() { codegen::run(4, 359) }
#[no_mangle] pub extern "C" fn c19_4_360() { codegen::run(4, 360) }
#[no_mangle] pub extern "C" fn c19_4_361() { codegen::run(4, 361) }
#[no_mangle] pub extern "C" fn c19_4_362() { codegen::run(4, 362) }
#[no_mangle] pub extern "C" fn c19_4_363() { codegen::run(4, 363) }
#[no_mangle] pub extern "C" fn c19_4_364() { codegen::run(4, 364) }
#[no_mangle] pub extern "C" fn c19_4_365() { codegen::run(4, 365) }
#[no_mangle] pub extern "C" fn c19_4_366() { codegen::run(4, 366) }
#[no_mangle] pub extern "C" fn c19_4_367() { codegen::run(4, 367) }
#[no_mangle] pub extern "C" fn c19_4_368() { codegen::run(4, 368) }
#[no_mangle] pub extern "C" fn c19_4_369() { codegen::run(4, 369) }
#[no_mangle] pub extern "C" fn c19_4_370() { codegen::run(4, 370) }
#[no_mangle] pub extern "C" fn c19_4_371() { codegen::run(4, 371) }
#[no_mangle] pub extern "C" fn c19_4_372() { codegen::run(4, 372) }
#[no_mangle] pub extern "C" fn c19_4_373() { codegen::run(4, 373) }
#[no_mangle] pub extern "C" fn c19_4_374() { codegen::run(4, 374) }
#[no_mangle] pub extern "C" fn c19_4_375() { codegen::run(4, 375) }
#[no_mangle] pub extern "C" fn c19_4_376() { codegen::run(4, 376) }
#[no_mangle] pub extern "C" fn c19_4_377() { codegen::run(4, 377) }
#[no_mangle] pub extern "C" fn c19_4_378() { codegen::run(4, 378) }
#[no_mangle] pub extern "C" fn c19_4_379() { codegen::run(4, 379) }
#[no_mangle] pub extern "C" fn c19_4_380() { codegen::run(4, 380) }
#[no_mangle] pub extern "C" fn c19_4_381() { codegen::run(4, 381) }
#[no_mangle] pub extern "C" fn c19_4_382() { codegen::run(4, 382) }
#[no_mangle] pub extern "C" fn c19_4_383() { codegen::run(4, 383) }
#[no_mangle] pub extern "C" fn c19_4_384() { codegen::run(4, 384) }
#[no_mangle] pub extern "C" fn c19_4_385() { codegen::run(4, 385) }
#[no_mangle] pub extern "C" fn c19_4_386() { codegen::run(4, 386) }
#[no_mangle] pub extern "C" fn c19_4_387() { codegen::run(4, 387) }
#[no_mangle] pub extern "C" fn c19_4_388() { codegen::run(4, 388) }
#[no_mangle] pub extern "C" fn c19_4_389() { codegen::run(4, 389) }
#[no_mangle] pub extern "C" fn c19_4_390() { codegen::run(4, 390) }
#[no_mangle] pub extern "C" fn c19_4_391() { codegen::run(4, 391) }
#[no_mangle] pub extern "C" fn c19_4_392() { codegen::run(4, 392) }
#[no_mangle] pub extern "C" fn c19_4_393() { codegen::run(4, 393) }
#[no_mangle] pub extern "C" fn c19_4_394() { codegen::run(4, 394) }
#[no_mangle] pub extern "C" fn c19_4_395() { codegen::run(4, 395) }
#[no_mangle] pub extern "C" fn c19_4_396() { codegen::run(4, 396) }
#[no_mangle] pub extern "C" fn c19_4_397() { codegen::run(4, 397) }
#[no_mangle] pub extern "C" fn c19_4_398() { codegen::run(4, 398) }
#[no_mangle] pub extern "C" fn c19_4_399() { codegen::run(4, 399) }
#[no_mangle] pub extern "C" fn c19_4_400() { codegen::run(4, 400) }
#[no_mangle] pub extern "C" fn c19_4_401() { codegen::run(4, 401) }
#[no_mangle] pub extern "C" fn c19_4_402() { codegen::run(4, 402) }
#[no_mangle] pub extern "C" fn c19_4_403() { codegen::run(4, 403) }
#[no_mangle] pub extern "C" fn c19_4_404() { codegen::run(4, 404) }
#[no_mangle] pub extern "C" fn c19_4_405() { codegen::run(4, 405) }
#[no_mangle] pub extern "C" fn c19_4_406() { codegen::run(4, 406) }
#[no_mangle] pub extern "C" fn c19_4_407() { codegen::run(4, 407) }
#[no_mangle] pub extern "C" fn c19_4_408() { codegen::run(4, 408) }
#[no_mangle] pub extern "C" fn c19_4_409() { codegen::run(4, 409) }
#[no_mangle] pub extern "C" fn c19_4_410() { codegen::run(4, 410) }
#[no_mangle] pub extern "C" fn c19_4_411() { codegen::run(4, 411) }
#[no_mangle] pub extern "C" fn c19_4_412() { codegen::run(4, 412) }
#[no_mangle] pub extern "C" fn c19_4_413() { codegen::run(4, 413) }
#[no_mangle] pub extern "C" fn c19_4_414() { codegen::run(4, 414) }
#[no_mangle] pub extern "C" fn c19_4_415() { codegen::run(4, 415) }
#[no_mangle] pub extern "C" fn c19_4_416() { codegen::run(4, 416) }
#[no_mangle] pub extern "C" fn c19_4_417() { codegen::run(4, 417) }
#[no_mangle] pub extern "C" fn c19_4_418() { codegen::run(4, 418) }
#[no_mangle] pub extern "C" fn c19_4_419() { codegen::run(4, 419) }
#[no_mangle] pub extern "C" fn c19_4_420() { codegen::run(4, 420) }
#[no_mangle] pub extern "C" fn c19_4_421() { codegen::run(4, 421) }
#[no_mangle] pub extern "C" fn c19_4_422() { codegen::run(4, 422) }
#[no_mangle] pub extern "C" fn c19_4_423() { codegen::run(4, 423) }
#[no_mangle] pub extern "C" fn c19_4_424() { codegen::run(4, 424) }
#[no_mangle] pub extern "C" fn c19_4_425() { codegen::run(4, 425) }
#[no_mangle] pub extern "C" fn c19_4_426() { codegen::run(4, 426) }
#[no_mangle] pub extern "C" fn c19_4_427() { codegen::run(4, 427) }
#[no_mangle] pub extern "C" fn c19_4_428() { codegen::run(4, 428) }
#[no_mangle] pub extern "C" fn c19_4_429() { codegen::run(4, 429) }
#[no_mangle] pub extern "C" fn c19_4_430() { codegen::run(4, 430) }
#[no_mangle] pub extern "C" fn c19_4_431() { codegen::run(4, 431) }
#[no_mangle] pub extern "C" fn c19_4_432() { codegen::run(4, 432) }
#[no_mangle] pub extern "C" fn c19_4_433() { codegen::run(4, 433) }
#[no_mangle] pub extern "C" fn c19_4_434() { codegen::run(4, 434) }
#[no_mangle] pub extern "C" fn c19_4_435() { codegen::run(4, 435) }
#[no_mangle] pub extern "C" fn c19_4_436() { codegen::run(4, 436) }
#[no_mangle] pub extern "C" fn c19_4_437() { codegen::run(4, 437) }
#[no_mangle] pub extern "C" fn c19_4_438() { codegen::run(4, 438) }
#[no_mangle] pub extern "C" fn c19_4_439() { codegen::run(4, 439) }
#[no_mangle] pub extern "C" fn c19_4_440() { codegen::run(4, 440) }
#[no_mangle] pub extern "C" fn c19_4_441() { codegen::run(4, 441) }
#[no_mangle] pub extern "C" fn c19_4_442() { codegen::run(4, 442) }
#[no_mangle] pub extern "C" fn c19_4_443() { codegen::run(4, 443) }
#[no_mangle] pub extern "C" fn c19_4_444() { codegen::run(4, 444) }
#[no_mangle] pub extern "C" fn c19_4_445() { codegen::run(4, 445) }
#[no_mangle] pub extern "C" fn c19_4_446() { codegen::run(4, 446) }
#[no_mangle] pub extern "C" fn c19_4_447() { codegen::run(4, 447) }
#[no_mangle] pub extern "C" fn c19_4_448() { codegen::run(4, 448) }
#[no_mangle] pub extern "C" fn c19_4_449() { codegen::run(4, 449) }
#[no_mangle] pub extern "C" fn c19_4_450() { codegen::run(4, 450) }
#[no_mangle] pub extern "C" fn c19_4_451() { codegen::run(4, 451) }
#[no_mangle] pub extern "C" fn c19_4_452() { codegen::run(4, 452) }
#[no_mangle] pub extern "C" fn c19_4_453() { codegen::run(4, 453) }
#[no_mangle] pub extern "C" fn c19_4_454() { codegen::run(4, 454) }
#[no_mangle] pub extern "C" fn c19_4_455() { codegen::run(4, 455) }
#[no_mangle] pub extern "C" fn c19_4_456() { codegen::run(4, 456) }
#[no_mangle] pub extern "C" fn c19_4_457() { codegen::run(4, 457) }
#[no_mangle] pub extern "C" fn c19_4_458() { codegen::run(4, 458) }
#[no_mangle] pub extern "C" fn c19_4_459() { codegen::run(4, 459) }
#[no_mangle] pub extern "C" fn c19_4_460() { codegen::run(4, 460) }
#[no_mangle] pub extern "C" fn c19_4_461() { codegen::run(4, 461) }
#[no_mangle] pub extern "C" fn c19_4_462() { codegen::run(4, 462) }
#[no_mangle] pub extern "C" fn c19_4_463() { codegen::run(4, 463) }
#[no_mangle] pub extern "C" fn c19_4_464() { codegen::run(4, 464) }
#[no_mangle] pub extern "C" fn c19_4_465() { codegen::run(4, 465) }
#[no_mangle] pub extern "C" fn c19_4_466() { codegen::run(4, 466) }
#[no_mangle] pub extern "C" fn c19_4_467() { codegen::run(4, 467) }
#[no_mangle] pub extern "C" fn c19_4_468() { codegen::run(4, 468) }
#[no_mangle] pub extern "C" fn c19_4_469() { codegen::run(4, 469) }
#[no_mangle] pub extern "C" fn c19_4_470() { codegen::run(4, 470) }
#[no_mangle] pub extern "C" fn c19_4_471() { codegen::run(4, 471) }
#[no_mangle] pub extern "C" fn c19_4_472() { codegen::run(4, 472) }
#[no_mangle] pub extern "C" fn c19_4_473() { codegen::run(4, 473) }
#[no_mangle] pub extern "C" fn c19_4_474() { codegen::run(4, 474) }
#[no_mangle] pub extern "C" fn c19_4_475() { codegen::run(4, 475) }
#[no_mangle] pub extern "C" fn c19_4_476() { codegen::run(4, 476) }
#[no_mangle] pub extern "C" fn c19_4_477() { codegen::run(4, 477) }
#[no_mangle] pub extern "C" fn c19_4_478() { codegen::run(4, 478) }
#[no_mangle] pub extern "C" fn c19_4_479() { codegen::run(4, 479) }
#[no_mangle] pub extern "C" fn c19_4_480() { codegen::run(4, 480) }
#[no_mangle] pub extern "C" fn c19_4_481() { codegen::run(4, 481) }
#[no_mangle] pub extern "C" fn c19_4_482() { codegen::run(4, 482) }
#[no_mangle] pub extern "C" fn c19_4_483() { codegen::run(4, 483) }
#[no_mangle] pub extern "C" fn c19_4_484() { codegen::run(4, 484) }
#[no_mangle] pub extern "C" fn c19_4_485() { codegen::run(4, 485) }
#[no_mangle] pub extern "C" fn c19_4_486() { codegen::run(4, 486) }
#[no_mangle] pub extern "C" fn c19_4_487() { codegen::run(4, 487) }
#[no_mangle] pub extern "C" fn c19_4_488() { codegen::run(4, 488) }
#[no_mangle] pub extern "C" fn c19_4_489() { codegen::run(4, 489) }
#[no_mangle] pub extern "C" fn c19_4_490() { codegen::run(4, 490) }
#[no_mangle] pub extern "C" fn c19_4_491() { codegen::run(4, 491) }
#[no_mangle] pub extern "C" fn c19_4_492() { codegen::run(4, 492) }
#[no_mangle] pub extern "C" fn c19_4_493() { codegen::run(4, 493) }
#[no_mangle] pub extern "C" fn c19_4_494() { codegen::run(4, 494) }
#[no_mangle] pub extern "C" fn c19_4_495() { codegen::run(4, 495) }
#[no_mangle] pub extern "C" fn c19_4_496() { codegen::run(4, 496) }
#[no_mangle] pub extern "C" fn c19_4_497() { codegen::run(4, 497) }
#[no_mangle] pub extern "C" fn c19_4_498() { codegen::run(4, 498) }
#[no_mangle] pub extern "C" fn c19_4_499() { codegen::run(4, 499) }
#[no_mangle] pub extern "C" fn c19_4_500() { codegen::run(4, 500) }
#[no_mangle] pub extern "C" fn c19_4_501() { codegen::run(4, 501) }
#[no_mangle] pub extern "C" fn c19_4_502() { codegen::run(4, 502) }
#[no_mangle] pub extern "C" fn c19_4_503() { codegen::run(4, 503) }
#[no_mangle] pub extern "C" fn c19_4_504() { codegen::run(4, 504) }
#[no_mangle] pub extern "C" fn c19_4_505() { codegen::run(4, 505) }
#[no_mangle] pub extern "C" fn c19_4_506() { codegen::run(4, 506) }
#[no_mangle] pub extern "C" fn c19_4_507() { codegen::run(4, 507) }
#[no_mangle] pub extern "C" fn c19_4_508() { codegen::run(4, 508) }
#[no_mangle] pub extern "C" fn c19_4_509() { codegen::run(4, 509) }
#[no_mangle] pub extern "C" fn c19_4_510() { codegen::run(4, 510) }
#[no_mangle] pub extern "C" fn c19_4_511() { codegen::run(4, 511) }
#[no_mangle] pub extern "C" fn c19_4_512() { codegen::run(4, 512) }
#[no_mangle] pub extern "C" fn c19_4_513() { codegen::run(4, 513) }
#[no_mangle] pub extern "C" fn c19_4_514() { codegen::run(4, 514) }
#[no_mangle] pub extern "C" fn c19_4_515() { codegen::run(4, 515) }
#[no_mangle] pub extern "C" fn c19_4_516() { codegen::run(4, 516) }
#[no_mangle] pub extern "C" fn c19_4_517() { codegen::run(4, 517) }
#[no_mangle] pub extern "C" fn c19_4_518() { codegen::run(4, 518) }
#[no_mangle] pub extern "C" fn c19_4_519() { codegen::run(4, 519) }
#[no_mangle] pub extern "C" fn c19_4_520() { codegen::run(4, 520) }
#[no_mangle] pub extern "C" fn c19_4_521() { codegen::run(4, 521) }
#[no_mangle] pub extern "C" fn c19_4_522() { codegen::run(4, 522) }
#[no_mangle] pub extern "C" fn c19_4_523() { codegen::run(4, 523) }
#[no_mangle] pub extern "C" fn c19_4_524() { codegen::run(4, 524) }
#[no_mangle] pub extern "C" fn c19_4_525() { codegen::run(4, 525) }
#[no_mangle] pub extern "C" fn c19_4_526() { codegen::run(4, 526) }
#[no_mangle] pub extern "C" fn c19_4_527() { codegen::run(4, 527) }
#[no_mangle] pub extern "C" fn c19_4_528() { codegen::run(4, 528) }
#[no_mangle] pub extern "C" fn c19_4_529() { codegen::run(4, 529) }
#[no_mangle] pub extern "C" fn c19_4_530() { codegen::run(4, 530) }
#[no_mangle] pub extern "C" fn c19_4_531() { codegen::run(4, 531) }
#[no_mangle] pub extern "C" fn c19_4_532() { codegen::run(4, 532) }
#[no_mangle] pub extern "C" fn c19_4_533() { codegen::run(4, 533) }
#[no_mangle] pub extern "C" fn c19_4_534() { codegen::run(4, 534) }
#[no_mangle] pub extern "C" fn c19_4_535() { codegen::run(4, 535) }
#[no_mangle] pub extern "C" fn c19_4_536() { codegen::run(4, 536) }
#[no_mangle] pub extern "C" fn c19_4_537() { codegen::run(4, 537) }
#[no_mangle] pub extern "C" fn c19_4_538() { codegen::run(4, 538) }
#[no_mangle] pub extern "C" fn c19_4_539() { codegen::run(4, 539) }
#[no_mangle] pub extern "C" fn c19_4_540() { codegen::run(4, 540) }
#[no_mangle] pub extern "C" fn c19_4_541() { codegen::run(4, 541) }
#[no_mangle] pub extern "C" fn c19_4_542() { codegen::run(4, 542) }
#[no_mangle] pub extern "C" fn c19_4_543() { codegen::run(4, 543) }
#[no_mangle] pub extern "C" fn c19_4_544() { codegen::run(4, 544) }
#[no_mangle] pub extern "C" fn c19_4_545() { codegen::run(4, 545) }
#[no_mangle] pub extern "C" fn c19_4_546() { codegen::run(4, 546) }
#[no_mangle] pub extern "C" fn c19_4_547() { codegen::run(4, 547) }
#[no_mangle] pub extern "C" fn c19_4_548() { codegen::run(4, 548) }
#[no_mangle] pub extern "C" fn c19_4_549() { codegen::run(4, 549) }
#[no_mangle] pub extern "C" fn c19_4_550() { codegen::run(4, 550) }
#[no_mangle] pub extern "C" fn c19_4_551() { codegen::run(4, 551) }
#[no_mangle] pub extern "C" fn c19_4_552() { codegen::run(4, 552) }
#[no_mangle] pub extern "C" fn c19_4_553() { codegen::run(4, 553) }
#[no_mangle] pub extern "C" fn c19_4_554() { codegen::run(4, 554) }
#[no_mangle] pub extern "C" fn c19_4_555() { codegen::run(4, 555) }
#[no_mangle] pub extern "C" fn c19_4_556() { codegen::run(4, 556) }
#[no_mangle] pub extern "C" fn c19_4_557() { codegen::run(4, 557) }
#[no_mangle] pub extern "C" fn c19_4_558() { codegen::run(4, 558) }
#[no_mangle] pub extern "C" fn c19_4_559() { codegen::run(4, 559) }
#[no_mangle] pub extern "C" fn c19_4_560() { codegen::run(4, 560) }
#[no_mangle] pub extern "C" fn c19_4_561() { codegen::run(4, 561) }
#[no_mangle] pub extern "C" fn c19_4_562() { codegen::run(4, 562) }
#[no_mangle] pub extern "C" fn c19_4_563() { codegen::run(4, 563) }
#[no_mangle] pub extern "C" fn c19_4_564() { codegen::run(4, 564) }
#[no_mangle] pub extern "C" fn c19_4_565() { codegen::run(4, 565) }
#[no_mangle] pub extern "C" fn c19_4_566() { codegen::run(4, 566) }
#[no_mangle] pub extern "C" fn c19_4_567() { codegen::run(4, 567) }
#[no_mangle] pub extern "C" fn c19_4_568() { codegen::run(4, 568) }
#[no_mangle] pub extern "C" fn c19_4_569() { codegen::run(4, 569) }
#[no_mangle] pub extern "C" fn c19_4_570() { codegen::run(4, 570) }
#[no_mangle] pub extern "C" fn c19_4_571() { codegen::run(4, 571) }
#[no_mangle] pub extern "C" fn c19_4_572() { codegen::run(4, 572) }
#[no_mangle] pub extern "C" fn c19_4_573() { codegen::run(4, 573) }
#[no_mangle] pub extern "C" fn c19_4_574() { codegen::run(4, 574) }
#[no_mangle] pub extern "C" fn c19_4_575() { codegen::run(4, 575) }
#[no_mangle] pub extern "C" fn c19_5_0() { codegen::run(5, 0) }
#[no_mangle] pub extern "C" fn c19_5_1() { codegen::run(5, 1) }
#[no_mangle] pub extern "C" fn c19_5_2() { codegen::run(5, 2) }
#[no_mangle] pub extern "C" fn c19_5_3() { codegen::run(5, 3) }
#[no_mangle] pub extern "C" fn c19_5_4() { codegen::run(5, 4) }
#[no_mangle] pub extern "C" fn c19_5_5() { codegen::run(5, 5) }
#[no_mangle] pub extern "C" fn c19_5_6() { codegen::run(5, 6) }
#[no_mangle] pub extern "C" fn c19_5_7() { codegen::run(5, 7) }
#[no_mangle] pub extern "C" fn c19_5_8() { codegen::run(5, 8) }
#[no_mangle] pub extern "C" fn c19_5_9() { codegen::run(5, 9) }
#[no_mangle] pub extern "C" fn c19_5_10() { codegen::run(5, 10) }
#[no_mangle] pub extern "C" fn c19_5_11() { codegen::run(5, 11) }
#[no_mangle] pub extern "C" fn c19_5_12() { codegen::run(5, 12) }
#[no_mangle] pub extern "C" fn c19_5_13() { codegen::run(5, 13) }
#[no_mangle] pub extern "C" fn c19_5_14() { codegen::run(5, 14) }
#[no_mangle] pub extern "C" fn c19_5_15() { codegen::run(5, 15) }
#[no_mangle] pub extern "C" fn c19_5_16() { codegen::run(5, 16) }
#[no_mangle] pub extern "C" fn c19_5_17() { codegen::run(5, 17) }
#[no_mangle] pub extern "C" fn c19_5_18() { codegen::run(5, 18) }
#[no_mangle] pub extern "C" fn c19_5_19() { codegen::run(5, 19) }
#[no_mangle] pub extern "C" fn c19_5_20() { codegen::run(5, 20) }
#[no_mangle] pub extern "C" fn c19_5_21() { codegen::run(5, 21) }
#[no_mangle] pub extern "C" fn c19_5_22() { codegen::run(5, 22) }
#[no_mangle] pub extern "C" fn c19_5_23() { codegen::run(5, 23) }
#[no_mangle] pub extern "C" fn c19_5_24() { codegen::run(5, 24) }
#[no_mangle] pub extern "C" fn c19_5_25() { codegen::run(5, 25) }
#[no_mangle] pub extern "C" fn c19_5_26() { codegen::run(5, 26) }
#[no_mangle] pub extern "C" fn c19_5_27() { codegen::run(5, 27) }
#[no_mangle] pub extern "C" fn c19_5_28() { codegen::run(5, 28) }
#[no_mangle] pub extern "C" fn c19_5_29() { codegen::run(5, 29) }
#[no_mangle] pub extern "C" fn c19_5_30() { codegen::run(5, 30) }
#[no_mangle] pub extern "C" fn c19_5_31() { codegen::run(5, 31) }
#[no_mangle] pub extern "C" fn c19_5_32() { codegen::run(5, 32) }
#[no_mangle] pub extern "C" fn c19_5_33() { codegen::run(5, 33) }
#[no_mangle] pub extern "C" fn c19_5_34() { codegen::run(5, 34) }
#[no_mangle] pub extern "C" fn c19_5_35() { codegen::run(5, 35) }
#[no_mangle] pub extern "C" fn c19_6_0() { codegen::run(6, 0) }
#[no_mangle] pub extern "C" fn c19_6_1() { codegen::run(6, 1) }
#[no_mangle] pub extern "C" fn c19_6_2() { codegen::run(6, 2) }
#[no_mangle] pub extern "C" fn c19_6_3() { codegen::run(6, 3) }
#[no_mangle] pub extern "C" fn c19_6_4() { codegen::run(6, 4) }
#[no_mangle] pub extern "C" fn c19_7_0() { codegen::run(7, 0) }
#[no_mangle] pub extern "C" fn c19_7_1() { codegen::run(7, 1) }
#[no_mangle] pub extern "C" fn c19_7_2() { codegen::run(7, 2) }
#[no_mangle] pub extern "C" fn c19_7_3() { codegen::run(7, 3) }
#[no_mangle] pub extern "C" fn c19_7_4() { codegen::run(7, 4) }
#[no_mangle] pub extern "C" fn c19_7_5() { codegen::run(7, 5) }
#[no_mangle] pub extern "C" fn c19_7_6() { codegen::run(7, 6) }
#[no_mangle] pub extern "C" fn c19_7_7() { codegen::run(7, 7) }
#[no_mangle] pub extern "C" fn c19_7_8() { codegen::run(7, 8) }
#[no_mangle] pub extern "C" fn c19_7_9() { codegen::run(7, 9) }
#[no_mangle] pub extern "C" fn c19_7_10() { codegen::run(7, 10) }
#[no_mangle] pub extern "C" fn c19_7_11() { codegen::run(7, 11) }
#[no_mangle] pub extern "C" fn c19_7_12() { codegen::run(7, 12) }
#[no_mangle] pub extern "C" fn c19_7_13() { codegen::run(7, 13) }
#[no_mangle] pub extern "C" fn c19_7_14() { codegen::run(7, 14) }
#[no_mangle] pub extern "C" fn c19_7_15() { codegen::run(7, 15) }
#[no_mangle] pub extern "C" fn c19_7_16() { codegen::run(7, 16) }
#[no_mangle] pub extern "C" fn c19_7_17() { codegen::run(7, 17) }
#[no_mangle] pub extern "C" fn c19_7_18() { codegen::run(7, 18) }
#[no_mangle] pub extern "C" fn c19_7_19() { codegen::run(7, 19) }
#[no_mangle] pub extern "C" fn c19_7_20() { codegen::run(7, 20) }
#[no_mangle] pub extern "C" fn c19_7_21() { codegen::run(7, 21) }
#[no_mangle] pub extern "C" fn c19_7_22() { codegen::run(7, 22) }
#[no_mangle] pub extern "C" fn c19_7_23() { codegen::run(7, 23) }
#[no_mangle] pub extern "C" fn c19_7_24() { codegen::run(7, 24) }
#[no_mangle] pub extern "C" fn c19_7_25() { codegen::run(7, 25) }
#[no_mangle] pub extern "C" fn c19_7_26() { codegen::run(7, 26) }
#[no_mangle] pub extern "C" fn c19_7_27() { codegen::run(7, 27) }
#[no_mangle] pub extern "C" fn c19_7_28() { codegen::run(7, 28) }
#[no_mangle] pub extern "C" fn c19_7_29() { codegen::run(7, 29) }
#[no_mangle] pub extern "C" fn c19_7_30() { codegen::run(7, 30) }
#[no_mangle] pub extern "C" fn c19_7_31() { codegen::run(7, 31) }
#[no_mangle] pub extern "C" fn c19_7_32() { codegen::run(7, 32) }
#[no_mangle] pub extern "C" fn c19_7_33() { codegen::run(7, 33) }
#[no_mangle] pub extern "C" fn c19_7_34() { codegen::run(7, 34) }
#[no_mangle] pub extern "C" fn c19_7_35() { codegen::run(7, 35) }
#[no_mangle] pub extern "C" fn c19_7_36() { codegen::run(7, 36) }
#[no_mangle] pub extern "C" fn c19_7_37() { codegen::run(7, 37) }
#[no_mangle] pub extern "C" fn c19_7_38() { codegen::run(7, 38) }
#[no_mangle] pub extern "C" fn c19_7_39() { codegen::run(7, 39) }
#[no_mangle] pub extern "C" fn c19_7_40() { codegen::run(7, 40) }
#[no_mangle] pub extern "C" fn c19_7_41() { codegen::run(7, 41) }
#[no_mangle] pub extern "C" fn c19_7_42() { codegen::run(7, 42) }
#[no_mangle] pub extern "C" fn c19_7_43() { codegen::run(7, 43) }
#[no_mangle] pub extern "C" fn c19_7_44() { codegen::run(7, 44) }
#[no_mangle] pub extern "C" fn c19_7_45() { codegen::run(7, 45) }
#[no_mangle] pub extern "C" fn c19_7_46() { codegen::run(7, 46) }
#[no_mangle] pub extern "C" fn c19_7_47() { codegen::run(7, 47) }
#[no_mangle] pub extern "C" fn c19_7_48() { codegen::run(7, 48) }
#[no_mangle] pub extern "C" fn c19_7_49() { codegen::run(7, 49) }
#[no_mangle] pub extern "C" fn c19_7_50() { codegen::run(7, 50) }
#[no_mangle] pub extern "C" fn c19_7_51() { codegen::run(7, 51) }
#[no_mangle] pub extern "C" fn c19_7_52() { codegen::run(7, 52) }
#[no_mangle] pub extern "C" fn c19_7_53() { codegen::run(7, 53) }
#[no_mangle] pub extern "C" fn c19_7_54() { codegen::run(7, 54) }
#[no_mangle] pub extern "C" fn c19_7_55() { codegen::run(7, 55) }
#[no_mangle] pub extern "C" fn c19_7_56() { codegen::run(7, 56) }
#[no_mangle] pub extern "C" fn c19_7_57() { codegen::run(7, 57) }
#[no_mangle] pub extern "C" fn c19_7_58() { codegen::run(7, 58) }
#[no_mangle] pub extern "C" fn c19_7_59() { codegen::run(7, 59) }
#[no_mangle] pub extern "C" fn c19_7_60() { codegen::run(7, 60) }
#[no_mangle] pub extern "C" fn c19_7_61() { codegen::run(7, 61) }
#[no_mangle] pub extern "C" fn c19_7_62() { codegen::run(7, 62) }
#[no_mangle] pub extern "C" fn c19_7_63() { codegen::run(7, 63) }
#[no_mangle] pub extern "C" fn c19_7_64() { codegen::run(7, 64) }
#[no_mangle] pub extern "C" fn c19_7_65() { codegen::run(7, 65) }
#[no_mangle] pub extern "C" fn c19_7_66() { codegen::run(7, 66) }
#[no_mangle] pub extern "C" fn c19_7_67() { codegen::run(7, 67) }
#[no_mangle] pub extern "C" fn c19_7_68() { codegen::run(7, 68) }
#[no_mangle] pub extern "C" fn c19_7_69() { codegen::run(7, 69) }
#[no_mangle] pub extern "C" fn c19_7_70() { codegen::run(7, 70) }
#[no_mangle] pub extern "C" fn c19_7_71() { codegen::run(7, 71) }
#[no_mangle] pub extern "C" fn c19_7_72() { codegen::run(7, 72) }
#[no_mangle] pub extern "C" fn c19_7_73() { codegen::run(7, 73) }
#[no_mangle] pub extern "C" fn c19_7_74() { codegen::run(7, 74) }
#[no_mangle] pub extern "C" fn c19_7_75() { codegen::run(7, 75) }
#[no_mangle] pub extern "C" fn c19_7_76() { codegen::run(7, 76) }
#[no_mangle] pub extern "C" fn c19_7_77() { codegen::run(7, 77) }
#[no_mangle] pub extern "C" fn c19_7_78() { codegen::run(7, 78) }
#[no_mangle] pub extern "C" fn c19_7_79() { codegen::run(7, 79) }
#[no_mangle] pub extern "C" fn c19_7_80() { codegen::run(7, 80) }
#[no_mangle] pub extern "C" fn c19_7_81() { codegen::run(7, 81) }
#[no_mangle] pub extern "C" fn c19_7_82() { codegen::run(7, 82) }
#[no_mangle] pub extern "C" fn c19_7_83() { codegen::run(7, 83) }
#[no_mangle] pub extern "C" fn c19_7_84() { codegen::run(7, 84) }
#[no_mangle] pub extern "C" fn c19_7_85() { codegen::run(7, 85) }
#[no_mangle] pub extern "C" fn c19_7_86() { codegen::run(7, 86) }
#[no_mangle] pub extern "C" fn c19_7_87() { codegen::run(7, 87) }
#[no_mangle] pub extern "C" fn c19_7_88() { codegen::run(7, 88) }
#[no_mangle] pub extern "C" fn c19_7_89() { codegen::run(7, 89) }
#[no_mangle] pub extern "C" fn c19_7_90() { codegen::run(7, 90) }
#[no_mangle] pub extern "C" fn c19_7_91() { codegen::run(7, 91) }
#[no_mangle] pub extern "C" fn c19_7_92() { codegen::run(7, 92) }
#[no_mangle] pub extern "C" fn c19_7_93() { codegen::run(7, 93) }
#[no_mangle] pub extern "C" fn c19_7_94() { codegen::run(7, 94) }
#[no_mangle] pub extern "C" fn c19_7_95() { codegen::run(7, 95) }
#[no_mangle] pub extern "C" fn c19_8_0() { codegen::run(8, 0) }
#[no_mangle] pub extern "C" fn c19_8_1() { codegen::run(8, 1) }
#[no_mangle] pub extern "C" fn c19_9_0() { codegen::run(9, 0) }
#[no_mangle] pub extern "C" fn c19_9_1() { codegen::run(9, 1) }
#[no_mangle] pub extern "C" fn c19_9_2() { codegen::run(9, 2) }
#[no_mangle] pub extern "C" fn c19_9_3() { codegen::run(9, 3) }
#[no_mangle] pub extern "C" fn c19_9_4() { codegen::run(9, 4) }
#[no_mangle] pub extern "C" fn c19_9_5() { codegen::run(9, 5) }
#[no_mangle] pub extern "C" fn c19_9_6() { codegen::run(9, 6) }
#[no_mangle] pub extern "C" fn c19_9_7() { codegen::run(9, 7) }
#[no_mangle] pub extern "C" fn c19_9_8() { codegen::run(9, 8) }
#[no_mangle] pub extern "C" fn c19_9_9() { codegen::run(9, 9) }
#[no_mangle] pub extern "C" fn c19_9_10() { codegen::run(9, 10) }
#[no_mangle] pub extern "C" fn c19_9_11() { codegen::run(9, 11) }
#[no_mangle] pub extern "C" fn c19_9_12() { codegen::run(9, 12) }
#[no_mangle] pub extern "C" fn c19_9_13() { codegen::run(9, 13) }
#[no_mangle] pub extern "C" fn c19_9_14() { codegen::run(9, 14) }
#[no_mangle] pub extern "C" fn c19_9_15() { codegen::run(9, 15) }
#[no_mangle] pub extern "C" fn c19_9_16() { codegen::run(9, 16) }
#[no_mangle] pub extern "C" fn c19_9_17() { codegen::run(9, 17) }
#[no_mangle] pub extern "C" fn c19_9_18() { codegen::run(9, 18) }
#[no_mangle] pub extern "C" fn c19_9_19() { codegen::run(9, 19) }
#[no_mangle] pub extern "C" fn c19_9_20() { codegen::run(9, 20) }
#[no_mangle] pub extern "C" fn c19_9_21() { codegen::run(9, 21) }
#[no_mangle] pub extern "C" fn c19_9_22() { codegen::run(9, 22) }
#[no_mangle] pub extern "C" fn c19_9_23() { codegen::run(9, 23) }
#[no_mangle] pub extern "C" fn c19_9_24() { codegen::run(9, 24) }
#[no_mangle] pub extern "C" fn c19_9_25() { codegen::run(9, 25) }
#[no_mangle] pub extern "C" fn c19_9_26() { codegen::run(9, 26) }
#[no_mangle] pub extern "C" fn c19_9_27() { codegen::run(9, 27) }
#[no_mangle] pub extern "C" fn c19_9_28() { codegen::run(9, 28) }
#[no_mangle] pub extern "C" fn c19_9_29() { codegen::run(9, 29) }
#[no_mangle] pub extern "C" fn c19_9_30() { codegen::run(9, 30) }
#[no_mangle] pub extern "C" fn c19_9_31() { codegen::run(9, 31) }
#[no_mangle] pub extern "C" fn c19_9_32() { codegen::run(9, 32) }
#[no_mangle] pub extern "C" fn c19_9_33() { codegen::run(9, 33) }
#[no_mangle] pub extern "C" fn c19_9_34() { codegen::run(9, 34) }
#[no_mangle] pub extern "C" fn c19_9_35() { codegen::run(9, 35) }
#[no_mangle] pub extern "C" fn c19_9_36() { codegen::run(9, 36) }
#[no_mangle] pub extern "C" fn c19_9_37() { codegen::run(9, 37) }
#[no_mangle] pub extern "C" fn c19_9_38() { codegen::run(9, 38) }
#[no_mangle] pub extern "C" fn c19_9_39() { codegen::run(9, 39) }
#[no_mangle] pub extern "C" fn c19_9_40() { codegen::run(9, 40) }
#[no_mangle] pub extern "C" fn c19_9_41() { codegen::run(9, 41) }
#[no_mangle] pub extern "C" fn c19_9_42() { codegen::run(9, 42) }
#[no_mangle] pub extern "C" fn c19_9_43() { codegen::run(9, 43) }
#[no_mangle] pub extern "C" fn c19_9_44() { codegen::run(9, 44) }
#[no_mangle] pub extern "C" fn c19_9_45() { codegen::run(9, 45) }
#[no_mangle] pub extern "C" fn c19_9_46() { codegen::run(9, 46) }
#[no_mangle] pub extern "C" fn c19_9_47() { codegen::run(9, 47) }
#[no_mangle] pub extern "C" fn c19_10_0() { codegen::run(10, 0) }
#[no_mangle] pub extern "C" fn c19_10_1() { codegen::run(10, 1) }
#[no_mangle] pub extern "C" fn c19_10_2() { codegen::run(10, 2) }
#[no_mangle] pub extern "C" fn c19_10_3() { codegen::run(10, 3) }
#[no_mangle] pub extern "C" fn c19_10_4() { codegen::run(10, 4) }
#[no_mangle] pub extern "C" fn c19_10_5() { codegen::run(10, 5) }
#[no_mangle] pub extern "C" fn c19_10_6() { codegen::run(10, 6) }
#[no_mangle] pub extern "C" fn c19_10_7() { codegen::run(10, 7) }
#[no_mangle] pub extern "C" fn c19_11_0() { codegen::run(11, 0) }
#[no_mangle] pub extern "C" fn c19_11_1() { codegen::run(11, 1) }
#[no_mangle] pub extern "C" fn c19_11_2() { codegen::run(11, 2) }
#[no_mangle] pub extern "C" fn c19_12_0() { codegen::run(12, 0) }
#[no_mangle] pub extern "C" fn c19_12_1() { codegen::run(12, 1) }
#[no_mangle] pub extern "C" fn c19_12_2() { codegen::run(12, 2) }
#[no_mangle] pub extern "C" fn c19_12_3() { codegen::run(12, 3) }
#[no_mangle] pub extern "C" fn c19_12_4() { codegen::run(12, 4) }
#[no_mangle] pub extern "C" fn c19_12_5() { codegen::run(12, 5) }
#[no_mangle] pub extern "C" fn c19_12_6() { codegen::run(12, 6) }
#[no_mangle] pub extern "C" fn c19_12_7() { codegen::run(12, 7) }
#[no_mangle] pub extern "C" fn c19_12_8() { codegen::run(12, 8) }
#[no_mangle] pub extern "C" fn c19_12_9() { codegen::run(12, 9) }
#[no_mangle] pub extern "C" fn c19_12_10() { codegen::run(12, 10) }
#[no_mangle] pub extern "C" fn c19_12_11() { codegen::run(12, 11) }
#[no_mangle] pub extern "C" fn c19_12_12() { codegen::run(12, 12) }
#[no_mangle] pub extern "C" fn c19_12_13() { codegen::run(12, 13) }
#[no_mangle] pub extern "C" fn c19_12_14() { codegen::run(12, 14) }
#[no_mangle] pub extern "C" fn c19_12_15() { codegen::run(12, 15) }
#[no_mangle] pub extern "C" fn c19_12_16() { codegen::run(12, 16) }
#[no_mangle] pub extern "C" fn c19_12_17() { codegen::run(12, 17) }
#[no_mangle] pub extern "C" fn c19_12_18() { codegen::run(12, 18) }
#[no_mangle] pub extern "C" fn c19_12_19() { codegen::run(12, 19) }
#[no_mangle] pub extern "C" fn c19_12_20() { codegen::run(12, 20) }
#[no_mangle] pub extern "C" fn c19_12_21() { codegen::run(12, 21) }
#[no_mangle] pub extern "C" fn c19_12_22() { codegen::run(12, 22) }
#[no_mangle] pub extern "C" fn c19_12_23() { codegen::run(12, 23) }
#[no_mangle] pub extern "C" fn c19_12_24() { codegen::run(12, 24) }
#[no_mangle] pub extern "C" fn c19_12_25() { codegen::run(12, 25) }
#[no_mangle] pub extern "C" fn c19_12_26() { codegen::run(12, 26) }
#[no_mangle] pub extern "C" fn c19_12_27() { codegen::run(12, 27) }
#[no_mangle] pub extern "C" fn c19_12_28() { codegen::run(12, 28) }
#[no_mangle] pub extern "C" fn c19_12_29() { codegen::run(12, 29) }
#[no_mangle] pub extern "C" fn c19_12_30() { codegen::run(12, 30) }
#[no_mangle] pub extern "C" fn c19_12_31() { codegen::run(12, 31) }
#[no_mangle] pub extern "C" fn c19_12_32() { codegen::run(12, 32) }
#[no_mangle] pub extern "C" fn c19_12_33() { codegen::run(12, 33) }
#[no_mangle] pub extern "C" fn c19_12_34() { codegen::run(12, 34) }
#[no_mangle] pub extern "C" fn c19_12_35() { codegen::run(12, 35) }
#[no_mangle] pub extern "C" fn c19_12_36() { codegen::run(12, 36) }
#[no_mangle] pub extern "C" fn c19_12_37() { codegen::run(12, 37) }
#[no_mangle] pub extern "C" fn c19_12_38() { codegen::run(12, 38) }
#[no_mangle] pub extern "C" fn c19_12_39() { codegen::run(12, 39) }
#[no_mangle] pub extern "C" fn c19_12_40() { codegen::run(12, 40) }
#[no_mangle] pub extern "C" fn c19_12_41() { codegen::run(12, 41) }
#[no_mangle] pub extern "C" fn c19_12_42() { codegen::run(12, 42) }
#[no_mangle] pub extern "C" fn c19_12_43() { codegen::run(12, 43) }
#[no_mangle] pub extern "C" fn c19_12_44() { codegen::run(12, 44) }
#[no_mangle] pub extern "C" fn c19_12_45() { codegen::run(12, 45) }
#[no_mangle] pub extern "C" fn c19_12_46() { codegen::run(12, 46) }
#[no_mangle] pub extern "C" fn c19_12_47() { codegen::run(12, 47) }
#[no_mangle] pub extern "C" fn c19_12_48() { codegen::run(12, 48) }
#[no_mangle] pub extern "C" fn c19_12_49() { codegen::run(12, 49) }
#[no_mangle] pub extern "C" fn c19_12_50() { codegen::run(12, 50) }
#[no_mangle] pub extern "C" fn c19_12_51() { codegen::run(12, 51) }
#[no_mangle] pub extern "C" fn c19_12_52() { codegen::run(12, 52) }
#[no_mangle] pub extern "C" fn c19_12_53() { codegen::run(12, 53) }
#[no_mangle] pub extern "C" fn c19_12_54() { codegen::run(12, 54) }
#[no_mangle] pub extern "C" fn c19_12_55() { codegen::run(12, 55) }
#[no_mangle] pub extern "C" fn c19_12_56() { codegen::run(12, 56) }
#[no_mangle] pub extern "C" fn c19_12_57() { codegen::run(12, 57) }
#[no_mangle] pub extern "C" fn c19_12_58() { codegen::run(12, 58) }
#[no_mangle] pub extern "C" fn c19_12_59() { codegen::run(12, 59) }
#[no_mangle] pub extern "C" fn c19_12_60() { codegen::run(12, 60) }
#[no_mangle] pub extern "C" fn c19_12_61() { codegen::run(12, 61) }
#[no_mangle] pub extern "C" fn c19_12_62() { codegen::run(12, 62) }
#[no_mangle] pub extern "C" fn c19_12_63() { codegen::run(12, 63) }
#[no_mangle] pub extern "C" fn c19_12_64() { codegen::run(12, 64) }
#[no_mangle] pub extern "C" fn c19_12_65() { codegen::run(12, 65) }
#[no_mangle] pub extern "C" fn c19_12_66() { codegen::run(12, 66) }
#[no_mangle] pub extern "C" fn c19_12_67() { codegen::run(12, 67) }
#[no_mangle] pub extern "C" fn c19_12_68() { codegen::run(12, 68) }
#[no_mangle] pub extern "C" fn c19_12_69() { codegen::run(12, 69) }
#[no_mangle] pub extern "C" fn c19_12_70() { codegen::run(12, 70) }
#[no_mangle] pub extern "C" fn c19_12_71() { codegen::run(12, 71) }
#[no_mangle] pub extern "C" fn c19_12_72() { codegen::run(12, 72) }
#[no_mangle] pub extern "C" fn c19_12_73() { codegen::run(12, 73) }
#[no_mangle] pub extern "C" fn c19_12_74() { codegen::run(12, 74) }
#[no_mangle] pub extern "C" fn c19_12_75() { codegen::run(12, 75) }
#[no_mangle] pub extern "C" fn c19_12_76() { codegen::run(12, 76) }
#[no_mangle] pub extern "C" fn c19_12_77() { codegen::run(12, 77) }
#[no_mangle] pub extern "C" fn c19_12_78() { codegen::run(12, 78) }
#[no_mangle] pub extern "C" fn c19_12_79() { codegen::run(12, 79) }
#[no_mangle] pub extern "C" fn c19_12_80() { codegen::run(12, 80) }
#[no_mangle] pub extern "C" fn c19_12_81() { codegen::run(12, 81) }
#[no_mangle] pub extern "C" fn c19_12_82() { codegen::run(12, 82) }
#[no_mangle] pub extern "C" fn c19_12_83() { codegen::run(12, 83) }
#[no_mangle] pub extern "C" fn c19_12_84() { codegen::run(12, 84) }
#[no_mangle] pub extern "C" fn c19_12_85() { codegen::run(12, 85) }
#[no_mangle] pub extern "C" fn c19_12_86() { codegen::run(12, 86) }
#[no_mangle] pub extern "C" fn c19_12_87() { codegen::run(12, 87) }
#[no_mangle] pub extern "C" fn c19_12_88() { codegen::run(12, 88) }
#[no_mangle] pub extern "C" fn c19_12_89() { codegen::run(12, 89) }
#[no_mangle] pub extern "C" fn c19_12_90() { codegen::run(12, 90) }
#[no_mangle] pub extern "C" fn c19_12_91() { codegen::run(12, 91) }
#[no_mangle] pub extern "C" fn c19_12_92() { codegen::run(12, 92) }
#[no_mangle] pub extern "C" fn c19_12_93() { codegen::run(12, 93) }
#[no_mangle] pub extern "C" fn c19_12_94() { codegen::run(12, 94) }
#[no_mangle] pub extern "C" fn c19_12_95() { codegen::run(12, 95) }
#[no_mangle] pub extern "C" fn c19_12_96() { codegen::run(12, 96) }
#[no_mangle] pub extern "C" fn c19_12_97() { codegen::run(12, 97) }
#[no_mangle] pub extern "C" fn c19_12_98() { codegen::run(12, 98) }
#[no_mangle] pub extern "C" fn c19_12_99() { codegen::run(12, 99) }
#[no_mangle] pub extern "C" fn c19_12_100() { codegen::run(12, 100) }
#[no_mangle] pub extern "C" fn c19_12_101() { codegen::run(12, 101) }
#[no_mangle] pub extern "C" fn c19_12_102() { codegen::run(12, 102) }
#[no_mangle] pub extern "C" fn c19_12_103() { codegen::run(12, 103) }
#[no_mangle] pub extern "C" fn c19_12_104() { codegen::run(12, 104) }
#[no_mangle] pub extern "C" fn c19_12_105() { codegen::run(12, 105) }
#[no_mangle] pub extern "C" fn c19_12_106() { codegen::run(12, 106) }
#[no_mangle] pub extern "C" fn c19_12_107() { codegen::run(12, 107) }
#[no_mangle] pub extern "C" fn c19_12_108() { codegen::run(12, 108) }
#[no_mangle] pub extern "C" fn c19_12_109() { codegen::run(12, 109) }
#[no_mangle] pub extern "C" fn c19_12_110() { codegen::run(12, 110) }
#[no_mangle] pub extern "C" fn c19_12_111() { codegen::run(12, 111) }
#[no_mangle] pub extern "C" fn c19_12_112() { codegen::run(12, 112) }
#[no_mangle] pub extern "C" fn c19_12_113() { codegen::run(12, 113) }
#[no_mangle] pub extern "C" fn c19_12_114() { codegen::run(12, 114) }
#[no_mangle] pub extern "C" fn c19_12_115() { codegen::run(12, 115) }
#[no_mangle] pub extern "C" fn c19_12_116() { codegen::run(12, 116) }
#[no_mangle] pub extern "C" fn c19_12_117() { codegen::run(12, 117) }
#[no_mangle] pub extern "C" fn c19_12_118() { codegen::run(12, 118) }
#[no_mangle] pub extern "C" fn c19_12_119() { codegen::run(12, 119) }
#[no_mangle] pub extern "C" fn c19_12_120() { codegen::run(12, 120) }
#[no_mangle] pub extern "C" fn c19_12_121() { codegen::run(12, 121) }
#[no_mangle] pub extern "C" fn c19_12_122() { codegen::run(12, 122) }
#[no_mangle] pub extern "C" fn c19_12_123() { codegen::run(12, 123) }
#[no_mangle] pub extern "C" fn c19_12_124() { codegen::run(12, 124) }
#[no_mangle] pub extern "C" fn c19_12_125() { codegen::run(12, 125) }
#[no_mangle] pub extern "C" fn c19_12_126() { codegen::run(12, 126) }
#[no_mangle] pub extern "C" fn c19_12_127() { codegen::run(12, 127) }
#[no_mangle] pub extern "C" fn c19_12_128() { codegen::run(12, 128) }
#[no_mangle] pub extern "C" fn c19_12_129() { codegen::run(12, 129) }
#[no_mangle] pub extern "C" fn c19_12_130() { codegen::run(12, 130) }
#[no_mangle] pub extern "C" fn c19_12_131() { codegen::run(12, 131) }
#[no_mangle] pub extern "C" fn c19_12_132() { codegen::run(12, 132) }
#[no_mangle] pub extern "C" fn c19_12_133() { codegen::run(12, 133) }
#[no_mangle] pub extern "C" fn c19_12_134() { codegen::run(12, 134) }
#[no_mangle] pub extern "C" fn c19_12_135() { codegen::run(12, 135) }
#[no_mangle] pub extern "C" fn c19_12_136() { codegen::run(12, 136) }
#[no_mangle] pub extern "C" fn c19_12_137() { codegen::run(12, 137) }
#[no_mangle] pub extern "C" fn c19_12_138() { codegen::run(12, 138) }
#[no_mangle] pub extern "C" fn c19_12_139() { codegen::run(12, 139) }
#[no_mangle] pub extern "C" fn c19_12_140() { codegen::run(12, 140) }
#[no_mangle] pub extern "C" fn c19_12_141() { codegen::run(12, 141) }
#[no_mangle] pub extern "C" fn c19_12_142() { codegen::run(12, 142) }
#[no_mangle] pub extern "C" fn c19_12_143() { codegen::run(12, 143) }
#[no_mangle] pub extern "C" fn c19_12_144() { codegen::run(12, 144) }
#[no_mangle] pub extern "C" fn c19_12_145() { codegen::run(12, 145) }
#[no_mangle] pub extern "C" fn c19_12_146() { codegen::run(12, 146) }
#[no_mangle] pub extern "C" fn c19_12_147() { codegen::run(12, 147) }
#[no_mangle] pub extern "C" fn c19_12_148() { codegen::run(12, 148) }
#[no_mangle] pub extern "C" fn c19_12_149() { codegen::run(12, 149) }
#[no_mangle] pub extern "C" fn c19_12_150() { codegen::run(12, 150) }
#[no_mangle] pub extern "C" fn c19_12_151() { codegen::run(12, 151) }
#[no_mangle] pub extern "C" fn c19_12_152() { codegen::run(12, 152) }
#[no_mangle] pub extern "C" fn c19_12_153() { codegen::run(12, 153) }
#[no_mangle] pub extern "C" fn c19_12_154() { codegen::run(12, 154) }
#[no_mangle] pub extern "C" fn c19_12_155() { codegen::run(12, 155) }
#[no_mangle] pub extern "C" fn c19_12_156() { codegen::run(12, 156) }
#[no_mangle] pub extern "C" fn c19_12_157() { codegen::run(12, 157) }
#[no_mangle] pub extern "C" fn c19_12_158() { codegen::run(12, 158) }
#[no_mangle] pub extern "C" fn c19_12_159() { codegen::run(12, 159) }
#[no_mangle] pub extern "C" fn c19_12_160() { codegen::run(12, 160) }
#[no_mangle] pub extern "C" fn c19_12_161() { codegen::run(12, 161) }
#[no_mangle] pub extern "C" fn c19_12_162() { codegen::run(12, 162) }
#[no_mangle] pub extern "C" fn c19_12_163() { codegen::run(12, 163) }
#[no_mangle] pub extern "C" fn c19_12_164() { codegen::run(12, 164) }
#[no_mangle] pub extern "C" fn c19_12_165() { codegen::run(12, 165) }
#[no_mangle] pub extern "C" fn c19_12_166() { codegen::run(12, 166) }
#[no_mangle] pub extern "C" fn c19_12_167() { codegen::run(12, 167) }
#[no_mangle] pub extern "C" fn c19_12_168() { codegen::run(12, 168) }
#[no_mangle] pub extern "C" fn c19_12_169() { codegen::run(12, 169) }
#[no_mangle] pub extern "C" fn c19_12_170() { codegen::run(12, 170) }
#[no_mangle] pub extern "C" fn c19_12_171() { codegen::run(12, 171) }
#[no_mangle] pub extern "C" fn c19_12_172() { codegen::run(12, 172) }
#[no_mangle] pub extern "C" fn c19_12_173() { codegen::run(12, 173) }
#[no_mangle] pub extern "C" fn c19_12_174() { codegen::run(12, 174) }
#[no_mangle] pub extern "C" fn c19_12_175() { codegen::run(12, 175) }
#[no_mangle] pub extern "C" fn c19_12_176() { codegen::run(12, 176) }
#[no_mangle] pub extern "C" fn c19_12_177() { codegen::run(12, 177) }
#[no_mangle] pub extern "C" fn c19_12_178() { codegen::run(12, 178) }
#[no_mangle] pub extern "C" fn c19_12_179() { codegen::run(12, 179) }
#[no_mangle] pub extern "C" fn c19_12_180() { codegen::run(12, 180) }
#[no_mangle] pub extern "C" fn c19_12_181() { codegen::run(12, 181) }
#[no_mangle] pub extern "C" fn c19_12_182() { codegen::run(12, 182) }
#[no_mangle] pub extern "C" fn c19_12_183() { codegen::run(12, 183) }
#[no_mangle] pub extern "C" fn c19_12_184() { codegen::run(12, 184) }
#[no_mangle] pub extern "C" fn c19_12_185() { codegen::run(12, 185) }
#[no_mangle] pub extern "C" fn c19_12_186() { codegen::run(12, 186) }
#[no_mangle] pub extern "C" fn c19_12_187() { codegen::run(12, 187) }
#[no_mangle] pub extern "C" fn c19_12_188() { codegen::run(12, 188) }
#[no_mangle] pub extern "C" fn c19_12_189() { codegen::run(12, 189) }
#[no_mangle] pub extern "C" fn c19_12_190() { codegen::run(12, 190) }
#[no_mangle] pub extern "C" fn c19_12_191() { codegen::run(12, 191) }
#[no_mangle] pub extern "C" fn c19_13_0() { codegen::run(13, 0) }
#[no_mangle] pub extern "C" fn c19_13_1() { codegen::run(13, 1) }
#[no_mangle] pub extern "C" fn c19_13_2() { codegen::run(13, 2) }
#[no_mangle] pub extern "C" fn c19_13_3() { codegen::run(13, 3) }
#[no_mangle] pub extern "C" fn c19_13_4() { codegen::run(13, 4) }
#[no_mangle] pub extern "C" fn c19_13_5() { codegen::run(13, 5) }
#[no_mangle] pub extern "C" fn c19_14_0() { codegen::run(14, 0) }
#[no_mangle] pub extern "C" fn c19_14_1() { codegen::run(14, 1) }
#[no_mangle] pub extern "C" fn c19_14_2() { codegen::run(14, 2) }
#[no_mangle] pub extern "C" fn c19_14_3() { codegen::run(14, 3) }
#[no_mangle] pub extern "C" fn c19_14_4() { codegen::run(14, 4) }
#[no_mangle] pub extern "C" fn c19_14_5() { codegen::run(14, 5) }
#[no_mangle] pub extern "C" fn c19_14_6() { codegen::run(14, 6) }
#[no_mangle] pub extern "C" fn c19_14_7() { codegen::run(14, 7) }
#[no_mangle] pub extern "C" fn c19_14_8() { codegen::run(14, 8) }
#[no_mangle] pub extern "C" fn c19_14_9() { codegen::run(14, 9) }
#[no_mangle] pub extern "C" fn c19_14_10() { codegen::run(14, 10) }
#[no_mangle] pub extern "C" fn c19_14_11() { codegen::run(14, 11) }
#[no_mangle] pub extern "C" fn c19_14_12() { codegen::run(14, 12) }
#[no_mangle] pub extern "C" fn c19_14_13() { codegen::run(14, 13) }
#[no_mangle] pub extern "C" fn c19_14_14() { codegen::run(14, 14) }
#[no_mangle] pub extern "C" fn c19_14_15() { codegen::run(14, 15) }
#[no_mangle] pub extern "C" fn c19_14_16() { codegen::run(14, 16) }
#[no_mangle] pub extern "C" fn c19_14_17() { codegen::run(14, 17) }
#[no_mangle] pub extern "C" fn c19_14_18() { codegen::run(14, 18) }
#[no_mangle] pub extern "C" fn c19_14_19() { codegen::run(14, 19) }
#[no_mangle] pub extern "C" fn c19_14_20() { codegen::run(14, 20) }
#[no_mangle] pub extern "C" fn c19_14_21() { codegen::run(14, 21) }
#[no_mangle] pub extern "C" fn c19_14_22() { codegen::run(14, 22) }
#[no_mangle] pub extern "C" fn c19_14_23() { codegen::run(14, 23) }
#[no_mangle] pub extern "C" fn c19_15_0() { codegen::run(15, 0) }
#[no_mangle] pub extern "C" fn c19_15_1() { codegen::run(15, 1) }
#[no_mangle] pub extern "C" fn c19_15_2() { codegen::run(15, 2) }
#[no_mangle] pub extern "C" fn c19_16_0() { codegen::run(16, 0) }
#[no_mangle] pub extern "C" fn c19_16_1() { codegen::run(16, 1) }
#[no_mangle] pub extern "C" fn c19_16_2() { codegen::run(16, 2) }
#[no_mangle] pub extern "C" fn c19_16_3() { codegen::run(16, 3) }
#[no_mangle] pub extern "C" fn c19_16_4() { codegen::run(16, 4) }
#[no_mangle] pub extern "C" fn c19_16_5() { codegen::run(16, 5) }
#[no_mangle] pub extern "C" fn c19_17_0() { codegen::run(17, 0) }
#[no_mangle] pub extern "C" fn c19_17_1() { codegen::run(17, 1) }
#[no_mangle] pub extern "C" fn c19_17_2() { codegen::run(17, 2) }
#[no_mangle] pub extern "C" fn c19_17_3() { codegen::run(17, 3) }
#[no_mangle] pub extern "C" fn c19_17_4() { codegen::run(17, 4) }
#[no_mangle] pub extern "C" fn c19_17_5() { codegen::run(17, 5) }
#[no_mangle] pub extern "C" fn c19_17_6() { codegen::run(17, 6) }
#[no_mangle] pub extern "C" fn c19_17_7() { codegen::run(17, 7) }
#[no_mangle] pub extern "C" fn c19_17_8() { codegen::run(17, 8) }
#[no_mangle] pub extern "C" fn c19_17_9() { codegen::run(17, 9) }
#[no_mangle] pub extern "C" fn c19_17_10() { codegen::run(17, 10) }
#[no_mangle] pub extern "C" fn c19_17_11() { codegen::run(17, 11) }
#[no_mangle] pub extern "C" fn c19_17_12() { codegen::run(17, 12) }
#[no_mangle] pub extern "C" fn c19_17_13() { codegen::run(17, 13) }
#[no_mangle] pub extern "C" fn c19_17_14() { codegen::run(17, 14) }
#[no_mangle] pub extern "C" fn c19_17_15() { codegen::run(17, 15) }
#[no_mangle] pub extern "C" fn c19_18_0() { codegen::run(18, 0) }
#[no_mangle] pub extern "C" fn c19_18_1() { codegen::run(18, 1) }
#[no_mangle] pub extern "C" fn c19_18_2() { codegen::run(18, 2) }
#[no_mangle] pub extern "C" fn c19_18_3() { codegen::run(18, 3) }
#[no_mangle] pub extern "C" fn c19_18_4() { codegen::run(18, 4) }
#[no_mangle] pub extern "C" fn c19_18_5() { codegen::run(18, 5) }
#[no_mangle] pub extern "C" fn c19_18_6() { codegen::run(18, 6) }
#[no_mangle] pub extern "C" fn c19_18_7() { codegen::run(18, 7) }
#[no_mangle] pub extern "C" fn c19_18_8() { codegen::run(18, 8) }
#[no_mangle] pub extern "C" fn c19_18_9() { codegen::run(18, 9) }
#[no_mangle] pub extern "C" fn c19_18_10() { codegen::run(18, 10) }
#[no_mangle] pub extern "C" fn c19_18_11() { codegen::run(18, 11) }
#[no_mangle] pub extern "C" fn c19_18_12() { codegen::run(18, 12) }
#[no_mangle] pub extern "C" fn c19_18_13() { codegen::run(18, 13) }
#[no_mangle] pub extern "C" fn c19_18_14() { codegen::run(18, 14) }
#[no_mangle] pub extern "C" fn c19_18_15() { codegen::run(18, 15) }
#[no_mangle] pub extern "C" fn c19_18_16() { codegen::run(18, 16) }
#[no_mangle] pub extern "C" fn c19_18_17() { codegen::run(18, 17) }
#[no_mangle] pub extern "C" fn c19_18_18() { codegen::run(18, 18) }
#[no_mangle] pub extern "C" fn c19_18_19() { codegen::run(18, 19) }
#[no_mangle] pub extern "C" fn c19_18_20() { codegen::run(18, 20) }
#[no_mangle] pub extern "C" fn c19_18_21() { codegen::run(18, 21) }
#[no_mangle] pub extern "C" fn c19_18_22() { codegen::run(18, 22) }
#[no_mangle] pub extern "C" fn c19_18_23() { codegen::run(18, 23) }
#[no_mangle] pub extern "C" fn c19_18_24() { codegen::run(18, 24) }
#[no_mangle] pub extern "C" fn c19_18_25() { codegen::run(18, 25) }
#[no_mangle] pub extern "C" fn c19_18_26() { codegen::run(18, 26) }
#[no_mangle] pub extern "C" fn c19_18_27() { codegen::run(18, 27) }
#[no_mangle] pub extern "C" fn c19_18_28() { codegen::run(18, 28) }
#[no_mangle] pub extern "C" fn c19_18_29() { codegen::run(18, 29) }
#[no_mangle] pub extern "C" fn c19_18_30() { codegen::run(18, 30) }
#[no_mangle] pub extern "C" fn c19_18_31() { codegen::run(18, 31) }
#[no_mangle] pub extern "C" fn c19_18_32() { codegen::run(18, 32) }
#[no_mangle] pub extern "C" fn c19_18_33() { codegen::run(18, 33) }
#[no_mangle] pub extern "C" fn c19_18_34() { codegen::run(18, 34) }
#[no_mangle] pub extern "C" fn c19_18_35() { codegen::run(18, 35) }
#[no_mangle] pub extern "C" fn c19_18_36() { codegen::run(18, 36) }
#[no_mangle] pub extern "C" fn c19_18_37() { codegen::run(18, 37) }
#[no_mangle] pub extern "C" fn c19_18_38() { codegen::run(18, 38) }
#[no_mangle] pub extern "C" fn c19_18_39() { codegen::run(18, 39) }
#[no_mangle] pub extern "C" fn c19_18_40() { codegen::run(18, 40) }
#[no_mangle] pub extern "C" fn c19_18_41() { codegen::run(18, 41) }
#[no_mangle] pub extern "C" fn c19_18_42() { codegen::run(18, 42) }
#[no_mangle] pub extern "C" fn c19_18_43() { codegen::run(18, 43) }
#[no_mangle] pub extern "C" fn c19_18_44() { codegen::run(18, 44) }
#[no_mangle] pub extern "C" fn c19_18_45() { codegen::run(18, 45) }
#[no_mangle] pub extern "C" fn c19_18_46() { codegen::run(18, 46) }
#[no_mangle] pub extern "C" fn c19_18_47() { codegen::run(18, 47) }
#[no_mangle] pub extern "C" fn c19_18_48() { codegen::run(18, 48) }
#[no_mangle] pub extern "C" fn c19_18_49() { codegen::run(18, 49) }
#[no_mangle] pub extern "C" fn c19_18_50() { codegen::run(18, 50) }
#[no_mangle] pub extern "C" fn c19_18_51() { codegen::run(18, 51) }
#[no_mangle] pub extern "C" fn c19_18_52() { codegen::run(18, 52) }
#[no_mangle] pub extern "C" fn c19_18_53() { codegen::run(18, 53) }
#[no_mangle] pub extern "C" fn c19_18_54() { codegen::run(18, 54) }
#[no_mangle] pub extern "C" fn c19_18_55() { codegen::run(18, 55) }
#[no_mangle] pub extern "C" fn c19_18_56() { codegen::run(18, 56) }
#[no_mangle] pub extern "C" fn c19_18_57() { codegen::run(18, 57) }
#[no_mangle] pub extern "C" fn c19_18_58() { codegen::run(18, 58) }
#[no_mangle] pub extern "C" fn c19_18_59() { codegen::run(18, 59) }
#[no_mangle] pub extern "C" fn c19_18_60() { codegen::run(18, 60) }
#[no_mangle] pub extern "C" fn c19_18_61() { codegen::run(18, 61) }
#[no_mangle] pub extern "C" fn c19_18_62() { codegen::run(18, 62) }
#[no_mangle] pub extern "C" fn c19_18_63() { codegen::run(18, 63) }
#[no_mangle] pub extern "C" fn c19_18_64() { codegen::run(18, 64) }
#[no_mangle] pub extern "C" fn c19_18_65() { codegen::run(18, 65) }
#[no_mangle] pub extern "C" fn c19_18_66() { codegen::run(18, 66) }
#[no_mangle] pub extern "C" fn c19_18_67() { codegen::run(18, 67) }
#[no_mangle] pub extern "C" fn c19_18_68() { codegen::run(18, 68) }
#[no_mangle] pub extern "C" fn c19_18_69() { codegen::run(18, 69) }
#[no_mangle] pub extern "C" fn c19_18_70() { codegen::run(18, 70) }
#[no_mangle] pub extern "C" fn c19_18_71() { codegen::run(18, 71) }
#[no_mangle] pub extern "C" fn c20_0_0() { diagnostics::run(0, 0) }
#[no_mangle] pub extern "C" fn c20_0_1() { diagnostics::run(0, 1) }
#[no_mangle] pub extern "C" fn c20_0_2() { diagnostics::run(0, 2) }
#[no_mangle] pub extern "C" fn c20_1_0() { diagnostics::run(1, 0) }
#[no_mangle] pub extern "C" fn c20_1_1() { diagnostics::run(1, 1) }
#[no_mangle] pub extern "C" fn c20_1_2() { diagnostics::run(1, 2) }
#[no_mangle] pub extern "C" fn c20_2_0() { diagnostics::run(2, 0) }
#[no_mangle] pub extern "C" fn c20_2_1() { diagnostics::run(2, 1) }
#[no_mangle] pub extern "C" fn c20_2_2() { diagnostics::run(2, 2) }
#[no_mangle] pub extern "C" fn c20_3_0() { diagnostics::run(3, 0) }
#[no_mangle] pub extern "C" fn c20_3_1() { diagnostics::run(3, 1) }
#[no_mangle] pub extern "C" fn c20_3_2() { diagnostics::run(3, 2) }
#[no_mangle] pub extern "C" fn c20_4_0() { diagnostics::run(4, 0) }
#[no_mangle] pub extern "C" fn c20_4_1() { diagnostics::run(4, 1) }
#[no_mangle] pub extern "C" fn c20_4_2() { diagnostics::run(4, 2) }
#[no_mangle] pub extern "C" fn c20_5_0() { diagnostics::run(5, 0) }
#[no_mangle] pub extern "C" fn c20_5_1() { diagnostics::run(5, 1) }
#[no_mangle] pub extern "C" fn c20_5_2() { diagnostics::run(5, 2) }
#[no_mangle] pub extern "C" fn c20_6_0() { diagnostics::run(6, 0) }
#[no_mangle] pub extern "C" fn c20_6_1() { diagnostics::run(6, 1) }
#[no_mangle] pub extern "C" fn c20_6_2() { diagnostics::run(6, 2) }
#[no_mangle] pub extern "C" fn c20_7_0() { diagnostics::run(7, 0) }
#[no_mangle] pub extern "C" fn c20_7_1() { diagnostics::run(7, 1) }
#[no_mangle] pub extern "C" fn c20_7_2() { diagnostics::run(7, 2) }
#[no_mangle] pub extern "C" fn c20_8_0() { diagnostics::run(8, 0) }
#[no_mangle] pub extern "C" fn c20_8_1() { diagnostics::run(8, 1) }
#[no_mangle] pub extern "C" fn c20_8_2() { diagnostics::run(8, 2) }
#[no_mangle] pub extern "C" fn c20_8_3() { diagnostics::run(8, 3) }
#[no_mangle] pub extern "C" fn c20_8_4() { diagnostics::run(8, 4) }
#[no_mangle] pub extern "C" fn c20_8_5() { diagnostics::run(8, 5) }
#[no_mangle] pub extern "C" fn c20_9_0() { diagnostics::run(9, 0) }
#[no_mangle] pub extern "C" fn c20_9_1() { diagnostics::run(9, 1) }
#[no_mangle] pub extern "C" fn c20_9_2() { diagnostics::run(9, 2) }
#[no_mangle] pub extern "C" fn c20_10_0() { diagnostics::run(10, 0) }
#[no_mangle] pub extern "C" fn c20_10_1() { diagnostics::run(10, 1) }
#[no_mangle] pub extern "C" fn c20_11_0() { diagnostics::run(11, 0) }
#[no_mangle] pub extern "C" fn c20_11_1() { diagnostics::run(11, 1) }
#[no_mangle] pub extern "C" fn c20_11_2() { diagnostics::run(11, 2) }
#[no_mangle] pub extern "C" fn c20_12_0() { diagnostics::run(12, 0) }
#[no_mangle] pub extern "C" fn c20_12_1() { diagnostics::run(12, 1) }
#[no_mangle] pub extern "C" fn c20_12_2() { diagnostics::run(12, 2) }
#[no_mangle] pub extern "C" fn c20_12_3() { diagnostics::run(12, 3) }
#[no_mangle] pub extern "C" fn c20_12_4() { diagnostics::run(12, 4) }
#[no_mangle] pub extern "C" fn c20_13_0() { diagnostics::run(13, 0) }
#[no_mangle] pub extern "C" fn c20_13_1() { diagnostics::run(13, 1) }
#[no_mangle] pub extern "C" fn c20_14_0() { diagnostics::run(14, 0) }
#[no_mangle] pub extern "C" fn c20_14_1() { diagnostics::run(14, 1) }
#[no_mangle] pub extern "C" fn c20_14_2() { diagnostics::run(14, 2) }
#[no_mangle] pub extern "C" fn c20_14_3() { diagnostics::run(14, 3) }
#[no_mangle] pub extern "C" fn c20_14_4() { diagnostics::run(14, 4) }
#[no_mangle] pub extern "C" fn c20_14_5() { diagnostics::run(14, 5) }
#[no_mangle] pub extern "C" fn c20_15_0() { diagnostics::run(15, 0) }
#[no_mangle] pub extern "C" fn c20_15_1() { diagnostics::run(15, 1) }
#[no_mangle] pub extern "C" fn c20_15_2() { diagnostics::run(15, 2) }
#[no_mangle] pub extern "C" fn c20_16_0() { diagnostics::run(16, 0) }
#[no_mangle] pub extern "C" fn c20_16_1() { diagnostics::run(16, 1) }
#[no_mangle] pub extern "C" fn c20_16_2() { diagnostics::run(16, 2) }
#[no_mangle] pub extern "C" fn c20_17_0() { diagnostics::run(17, 0) }
#[no_mangle] pub extern "C" fn c20_17_1() { diagnostics::run(17, 1) }
#[no_mangle] pub extern "C" fn c20_17_2() { diagnostics::run(17, 2) }
#[no_mangle] pub extern "C" fn c20_18_0() { diagnostics::run(18, 0) }
#[no_mangle] pub extern "C" fn c20_18_1() { diagnostics::run(18, 1) }
#[no_mangle] pub extern "C" fn c20_18_2() { diagnostics::run(18, 2) }
#[no_mangle] pub extern "C" fn c20_19_0() { diagnostics::run(19, 0) }
#[no_mangle] pub extern "C" fn c20_19_1() { diagnostics::run(19, 1) }
#[no_mangle] pub extern "C" fn c20_19_2() { diagnostics::run(19, 2) }
#[no_mangle] pub extern "C" fn c20_20_0() { diagnostics::run(20, 0) }
#[no_mangle] pub extern "C" fn c20_20_1() { diagnostics::run(20, 1) }
#[no_mangle] pub extern "C" fn c20_21_0() { diagnostics::run(21, 0) }
#[no_mangle] pub extern "C" fn c20_21_1() { diagnostics::run(21, 1) }
#[no_mangle] pub extern "C" fn c20_21_2() { diagnostics::run(21, 2) }
#[no_mangle] pub extern "C" fn c20_22_0() { diagnostics::run(22, 0) }
#[no_mangle] pub extern "C" fn c20_22_1() { diagnostics::run(22, 1) }
#[no_mangle] pub extern "C" fn c20_22_2() { diagnostics::run(22, 2) }
#[no_mangle] pub extern "C" fn c20_23_0() { diagnostics::run(23, 0) }
#[no_mangle] pub extern "C" fn c20_23_1() { diagnostics::run(23, 1) }
#[no_mangle] pub extern "C" fn c20_23_2() { diagnostics::run(23, 2) }
#[no_mangle] pub extern "C" fn c20_24_0() { diagnostics::run(24, 0) }
#[no_mangle] pub extern "C" fn c20_24_1() { diagnostics::run(24, 1) }
#[no_mangle] pub extern "C" fn c20_24_2() { diagnostics::run(24, 2) }
#[no_mangle] pub extern "C" fn c20_25_0() { diagnostics::run(25, 0) }
#[no_mangle] pub extern "C" fn c20_25_1() { diagnostics::run(25, 1) }
#[no_mangle] pub extern "C" fn c20_25_2() { diagnostics::run(25, 2) }
#[no_mangle] pub extern "C" fn c20_26_0() { diagnostics::run(26, 0) }
#[no_mangle] pub extern "C" fn c20_26_1() { diagnostics::run(26, 1) }
#[no_mangle] pub extern "C" fn c20_26_2() { diagnostics::run(26, 2) }
#[no_mangle] pub extern "C" fn c20_27_0() { diagnostics::run(27, 0) }
#[no_mangle] pub extern "C" fn c20_27_1() { diagnostics::run(27, 1) }
#[no_mangle] pub extern "C" fn c20_27_2() { diagnostics::run(27, 2) }
#[no_mangle] pub extern "C" fn c20_27_3() { diagnostics::run(27, 3) }
#[no_mangle] pub extern "C" fn c20_28_0() { diagnostics::run(28, 0) }
#[no_mangle] pub extern "C" fn c20_28_1() { diagnostics::run(28, 1) }
#[no_mangle] pub extern "C" fn c20_28_2() { diagnostics::run(28, 2) }
#[no_mangle] pub extern "C" fn c20_28_3() { diagnostics::run(28, 3) }
#[no_mangle] pub extern "C" fn c20_29_0() { diagnostics::run(29, 0) }
#[no_mangle] pub extern "C" fn c20_29_1() { diagnostics::run(29, 1) }
#[no_mangle] pub extern "C" fn c20_29_2() { diagnostics::run(29, 2) }
#[no_mangle] pub extern "C" fn c20_30_0() { diagnostics::run(30, 0) }
#[no_mangle] pub extern "C" fn c20_30_1() { diagnostics::run(30, 1) }
#[no_mangle] pub extern "C" fn c20_30_2() { diagnostics::run(30, 2) }
#[no_mangle] pub extern "C" fn c20_31_0() { diagnostics::run(31, 0) }
#[no_mangle] pub extern "C" fn c20_31_1() { diagnostics::run(31, 1) }
#[no_mangle] pub extern "C" fn c20_31_2() { diagnostics::run(31, 2) }
#[no_mangle] pub extern "C" fn c20_32_0() { diagnostics::run(32, 0) }
#[no_mangle] pub extern "C" fn c20_32_1() { diagnostics::run(32, 1) }
#[no_mangle] pub extern "C" fn c20_32_2() { diagnostics::run(32, 2) }
#[no_mangle] pub extern "C" fn c20_33_0() { diagnostics::run(33, 0) }
#[no_mangle] pub extern "C" fn c20_33_1() { diagnostics::run(33, 1) }
#[no_mangle] pub extern "C" fn c20_33_2() { diagnostics::run(33, 2) }
#[no_mangle] pub extern "C" fn c20_33_3() { diagnostics::run(33, 3) }
#[no_mangle] pub extern "C" fn c20_33_4() { diagnostics::run(33, 4) }
#[no_mangle] pub extern "C" fn c20_34_0() { diagnostics::run(34, 0) }
#[no_mangle] pub extern "C" fn c20_34_1() { diagnostics::run(34, 1) }
#[no_mangle] pub extern "C" fn c20_34_2() { diagnostics::run(34, 2) }
#[no_mangle] pub extern "C" fn c20_35_0() { diagnostics::run(35, 0) }
#[no_mangle] pub extern "C" fn c20_35_1() { diagnostics::run(35, 1) }
#[no_mangle] pub extern "C" fn c20_35_2() { diagnostics::run(35, 2) }
#[no_mangle] pub extern "C" fn c20_36_0() { diagnostics::run(36, 0) }
#[no_mangle] pub extern "C" fn c20_36_1() { diagnostics::run(36, 1) }
#[no_mangle] pub extern "C" fn c20_36_2() { diagnostics::run(36, 2) }
#[no_mangle] pub extern "C" fn c20_36_3() { diagnostics::run(36, 3) }
#[no_mangle] pub extern "C" fn c20_37_0() { diagnostics::run(37, 0) }
#[no_mangle] pub extern "C" fn c20_37_1() { diagnostics::run(37, 1) }
#[no_mangle] pub extern "C" fn c20_37_2() { diagnostics::run(37, 2) }
#[no_mangle] pub extern "C" fn c20_37_3() { diagnostics::run(37, 3) }
#[no_mangle] pub extern "C" fn c20_37_4() { diagnostics::run(37, 4) }
#[no_mangle] pub extern "C" fn c20_38_0() { diagnostics::run(38, 0) }
#[no_mangle] pub extern "C" fn c20_38_1() { diagnostics::run(38, 1) }
#[no_mangle] pub extern "C" fn c20_38_2() { diagnostics::run(38, 2) }
#[no_mangle] pub extern "C" fn c20_39_0() { diagnostics::run(39, 0) }
#[no_mangle] pub extern "C" fn c20_39_1() { diagnostics::run(39, 1) }
#[no_mangle] pub extern "C" fn c20_39_2() { diagnostics::run(39, 2) }
#[no_mangle] pub extern "C" fn c20_40_0() { diagnostics::run(40, 0) }
#[no_mangle] pub extern "C" fn c20_40_1() { diagnostics::run(40, 1) }
#[no_mangle] pub extern "C" fn c20_40_2() { diagnostics::run(40, 2) }
#[no_mangle] pub extern "C" fn c20_41_0() { diagnostics::run(41, 0) }
#[no_mangle] pub extern "C" fn c20_41_1() { diagnostics::run(41, 1) }
#[no_mangle] pub extern "C" fn c20_41_2() { diagnostics::run(41, 2) }
#[no_mangle] pub extern "C" fn c20_41_3() { diagnostics::run(41, 3) }
#[no_mangle] pub extern "C" fn c20_42_0() { diagnostics::run(42, 0) }
#[no_mangle] pub extern "C" fn c20_42_1() { diagnostics::run(42, 1) }
#[no_mangle] pub extern "C" fn c20_42_2() { diagnostics::run(42, 2) }
#[no_mangle] pub extern "C" fn c20_42_3() { diagnostics::run(42, 3) }
#[no_mangle] pub extern "C" fn c20_43_0() { diagnostics::run(43, 0) }
#[no_mangle] pub extern "C" fn c20_43_1() { diagnostics::run(43, 1) }
#[no_mangle] pub extern "C" fn c20_43_2() { diagnostics::run(43, 2) }
#[no_mangle] pub extern "C" fn c20_43_3() { diagnostics::run(43, 3) }
#[no_mangle] pub extern "C" fn c20_43_4() { diagnostics::run(43, 4) }
#[no_mangle] pub extern "C" fn c20_44_0() { diagnostics::run(44, 0) }
#[no_mangle] pub extern "C" fn c20_44_1() { diagnostics::run(44, 1) }
#[no_mangle] pub extern "C" fn c20_50_0() { diagnostics::run(50, 0) }
#[no_mangle] pub extern "C" fn c20_50_1() { diagnostics::run(50, 1) }
#[no_mangle] pub extern "C" fn c20_50_2() { diagnostics::run(50, 2) }
#[no_mangle] pub extern "C" fn c20_50_3() { diagnostics::run(50, 3) }
#[no_mangle] pub extern "C" fn c20_51_0() { diagnostics::run(51, 0) }
#[no_mangle] pub extern "C" fn c20_51_1() { diagnostics::run(51, 1) }
#[no_mangle] pub extern "C" fn c20_51_2() { diagnostics::run(51, 2) }
#[no_mangle] pub extern "C" fn c20_51_3() { diagnostics::run(51, 3) }
#[no_mangle] pub extern "C" fn c20_52_0() { diagnostics::run(52, 0) }
#[no_mangle] pub extern "C" fn c20_52_1() { diagnostics::run(52, 1) }
#[no_mangle] pub extern "C" fn c20_52_2() { diagnostics::run(52, 2) }
#[no_mangle] pub extern "C" fn c20_52_3() { diagnostics::run(52, 3) }
#[no_mangle] pub extern "C" fn c20_53_0() { diagnostics::run(53, 0) }
#[no_mangle] pub extern "C" fn c20_53_1() { diagnostics::run(53, 1) }
#[no_mangle] pub extern "C" fn c20_53_2() { diagnostics::run(53, 2) }
#[no_mangle] pub extern "C" fn c20_53_3() { diagnostics::run(53, 3) }
#[no_mangle] pub extern "C" fn c20_54_0() { diagnostics::run(54, 0) }
#[no_mangle] pub extern "C" fn c20_54_1() { diagnostics::run(54, 1) }
#[no_mangle] pub extern "C" fn c20_54_2() { diagnostics::run(54, 2) }
#[no_mangle] pub extern "C" fn c20_54_3() { diagnostics::run(54, 3) }
#[no_mangle] pub extern "C" fn c20_55_0() { diagnostics::run(55, 0) }
#[no_mangle] pub extern "C" fn c20_55_1() { diagnostics::run(55, 1) }
#[no_mangle] pub extern "C" fn c20_55_2() { diagnostics::run(55, 2) }
#[no_mangle] pub extern "C" fn c20_55_3() { diagnostics::run(55, 3) }
#[no_mangle] pub extern "C" fn c20_55_4() { diagnostics::run(55, 4) }
#[no_mangle] pub extern "C" fn c20_56_0() { diagnostics::run(56, 0) }
#[no_mangle] pub extern "C" fn c20_56_1() { diagnostics::run(56, 1) }
#[no_mangle] pub extern "C" fn c20_56_2() { diagnostics::run(56, 2) }
#[no_mangle] pub extern "C" fn c20_57_0() { diagnostics::run(57, 0) }
#[no_mangle] pub extern "C" fn c20_57_1() { diagnostics::run(57, 1) }
#[no_mangle] pub extern "C" fn c20_57_2() { diagnostics::run(57, 2) }
#[no_mangle] pub extern "C" fn c20_57_3() { diagnostics::run(57, 3) }
#[no_mangle] pub extern "C" fn c20_57_4() { diagnostics::run(57, 4) }
#[no_mangle] pub extern "C" fn c20_58_0() { diagnostics::run(58, 0) }
#[no_mangle] pub extern "C" fn c20_58_1() { diagnostics::run(58, 1) }
#[no_mangle] pub extern "C" fn c20_58_2() { diagnostics::run(58, 2) }
#[no_mangle] pub extern "C" fn c20_58_3() { diagnostics::run(58, 3) }
#[no_mangle] pub extern "C" fn c20_59_0() { diagnostics::run(59, 0) }
#[no_mangle] pub extern "C" fn c20_59_1() { diagnostics::run(59, 1) }
#[no_mangle] pub extern "C" fn c20_59_2() { diagnostics::run(59, 2) }
#[no_mangle] pub extern "C" fn c20_59_3() { diagnostics::run(59, 3) }
#[no_mangle] pub extern "C" fn c20_60_0() { diagnostics::run(60, 0) }
#[no_mangle] pub extern "C" fn c20_60_1() { diagnostics::run(60, 1) }
#[no_mangle] pub extern "C" fn c20_60_2() { diagnostics::run(60, 2) }
#[no_mangle] pub extern "C" fn c20_60_3() { diagnostics::run(60, 3) }
#[no_mangle] pub extern "C" fn c20_60_4() { diagnostics::run(60, 4) }
#[no_mangle] pub extern "C" fn c20_60_5() { diagnostics::run(60, 5) }
#[no_mangle] pub extern "C" fn c20_61_0() { diagnostics::run(61, 0) }
#[no_mangle] pub extern "C" fn c20_61_1() { diagnostics::run(61, 1) }
#[no_mangle] pub extern "C" fn c20_62_0() { diagnostics::run(62, 0) }
#[no_mangle] pub extern "C" fn c20_62_1() { diagnostics::run(62, 1) }
#[no_mangle] pub extern "C" fn c20_63_0() { diagnostics::run(63, 0) }
#[no_mangle] pub extern "C" fn c20_63_1() { diagnostics::run(63, 1) }
#[no_mangle] pub extern "C" fn c20_63_2() { diagnostics::run(63, 2) }
#[no_mangle] pub extern "C" fn c20_63_3() { diagnostics::run(63, 3) }
#[no_mangle] pub extern "C" fn c20_63_4() { diagnostics::run(63, 4) }
#[no_mangle] pub extern "C" fn c20_63_5() { diagnostics::run(63, 5) }
#[no_mangle] pub extern "C" fn c20_64_0() { diagnostics::run(64, 0) }
#[no_mangle] pub extern "C" fn c20_64_1() { diagnostics::run(64, 1) }
#[no_mangle] pub extern "C" fn c20_64_2() { diagnostics::run(64, 2) }
#[no_mangle] pub extern "C" fn c20_64_3() { diagnostics::run(64, 3) }
#[no_mangle] pub extern "C" fn c20_64_4() { diagnostics::run(64, 4) }
#[no_mangle] pub extern "C" fn c20_64_5() { diagnostics::run(64, 5) }
#[no_mangle] pub extern "C" fn c20_65_0() { diagnostics::run(65, 0) }
#[no_mangle] pub extern "C" fn c20_65_1() { diagnostics::run(65, 1) }
#[no_mangle] pub extern "C" fn c20_65_2() { diagnostics::run(65, 2) }
#[no_mangle] pub extern "C" fn c20_65_3() { diagnostics::run(65, 3) }
#[no_mangle] pub extern "C" fn c20_65_4() { diagnostics::run(65, 4) }
#[no_mangle] pub extern "C" fn c20_65_5() { diagnostics::run(65, 5) }
#[no_mangle] pub extern "C" fn c20_66_0() { diagnostics::run(66, 0) }
#[no_mangle] pub extern "C" fn c20_66_1() { diagnostics::run(66, 1) }
#[no_mangle] pub extern "C" fn c20_66_2() { diagnostics::run(66, 2) }
#[no_mangle] pub extern "C" fn c20_66_3() { diagnostics::run(66, 3) }
#[no_mangle] pub extern "C" fn c20_66_4() { diagnostics::run(66, 4) }
#[no_mangle] pub extern "C" fn c20_66_5() { diagnostics::run(66, 5) }
#[no_mangle] pub extern "C" fn c20_67_0() { diagnostics::run(67, 0) }
#[no_mangle] pub extern "C" fn c20_67_1() { diagnostics::run(67, 1) }
#[no_mangle] pub extern "C" fn c20_67_2() { diagnostics::run(67, 2) }
#[no_mangle] pub extern "C" fn c20_67_3() { diagnostics::run(67, 3) }
#[no_mangle] pub extern "C" fn c20_68_0() { diagnostics::run(68, 0) }
#[no_mangle] pub extern "C" fn c20_68_1() { diagnostics::run(68, 1) }
#[no_mangle] pub extern "C" fn c20_68_2() { diagnostics::run(68, 2) }
#[no_mangle] pub extern "C" fn c20_68_3() { diagnostics::run(68, 3) }
#[no_mangle] pub extern "C" fn c20_68_4() { diagnostics::run(68, 4) }
#[no_mangle] pub extern "C" fn c20_68_5() { diagnostics::run(68, 5) }
#[no_mangle] pub extern "C" fn c20_68_6() { diagnostics::run(68, 6) }
#[no_mangle] pub extern "C" fn c20_68_7() { diagnostics::run(68, 7) }
#[no_mangle] pub extern "C" fn c20_68_8() { diagnostics::run(68, 8) }
#[no_mangle] pub extern "C" fn c20_68_9() { diagnostics::run(68, 9) }
#[no_mangle] pub extern "C" fn c20_69_0() { diagnostics::run(69, 0) }
#[no_mangle] pub extern "C" fn c20_69_1() { diagnostics::run(69, 1) }
#[no_mangle] pub extern "C" fn c20_s0_0() { diagnostics::syntax_run(0, 0) }
#[no_mangle] pub extern "C" fn c20_s0_1() { diagnostics::syntax_run(0, 1) }
#[no_mangle] pub extern "C" fn c20_s0_2() { diagnostics::syntax_run(0, 2) }
#[no_mangle] pub extern "C" fn c20_s1_0() { diagnostics::syntax_run(1, 0) }
#[no_mangle] pub extern "C" fn c20_s1_1() { diagnostics::syntax_run(1, 1) }
#[no_mangle] pub extern "C" fn c20_s1_2() { diagnostics::syntax_run(1, 2) }
#[no_mangle] pub extern "C" fn c18_t1_0() { notation::token_run(1, Some(0), 0) }
#[no_mangle] pub extern "C" fn c18_t1_0r() { notation::token_run(1, Some(0), 1) }
#[no_mangle] pub extern "C" fn c18_t1_0t() { notation::token_run(1, Some(0), 2) }
#[no_mangle] pub extern "C" fn c18_t1_0i() { notation::token_run(1, Some(0), 3) }
#[no_mangle] pub extern "C" fn c18_t1_0p() { notation::token_run(1, Some(0), 4) }
#[no_mangle] pub extern "C" fn c18_t1_0v() { notation::token_run(1, Some(0), 5) }
#[no_mangle] pub extern "C" fn c18_t1_0y() { notation::token_run(1, Some(0), 6) }
#[no_mangle] pub extern "C" fn c18_t1_0q() { notation::token_run(1, Some(0), 7) }
#[no_mangle] pub extern "C" fn c18_t1_1() { notation::token_run(1, Some(1), 0) }
#[no_mangle] pub extern "C" fn c18_t1_1r() { notation::token_run(1, Some(1), 1) }
#[no_mangle] pub extern "C" fn c18_t1_1t() { notation::token_run(1, Some(1), 2) }
#[no_mangle] pub extern "C" fn c18_t1_1i() { notation::token_run(1, Some(1), 3) }
#[no_mangle] pub extern "C" fn c18_t1_1p() { notation::token_run(1, Some(1), 4) }
#[no_mangle] pub extern "C" fn c18_t1_1v() { notation::token_run(1, Some(1), 5) }
#[no_mangle] pub extern "C" fn c18_t1_1y() { notation::token_run(1, Some(1), 6) }
#[no_mangle] pub extern "C" fn c18_t1_1q() { notation::token_run(1, Some(1), 7) }
#[no_mangle] pub extern "C" fn c18_t1_2() { notation::token_run(1, Some(2), 0) }
#[no_mangle] pub extern "C" fn c18_t1_2r() { notation::token_run(1, Some(2), 1) }
#[no_mangle] pub extern "C" fn c18_t1_2t() { notation::token_run(1, Some(2), 2) }
#[no_mangle] pub extern "C" fn c18_t1_2i() { notation::token_run(1, Some(2), 3) }
#[no_mangle] pub extern "C" fn c18_t1_2p() { notation::token_run(1, Some(2), 4) }
#[no_mangle] pub extern "C" fn c18_t1_2v() { notation::token_run(1, Some(2), 5) }
#[no_mangle] pub extern "C" fn c18_t1_2y() { notation::token_run(1, Some(2), 6) }
#[no_mangle] pub extern "C" fn c18_t1_2q() { notation::token_run(1, Some(2), 7) }
#[no_mangle] pub extern "C" fn c18_t1_3() { notation::token_run(1, Some(3), 0) }
#[no_mangle] pub extern "C" fn c18_t1_3r() { notation::token_run(1, Some(3), 1) }
#[no_mangle] pub extern "C" fn c18_t1_3t() { notation::token_run(1, Some(3), 2) }
#[no_mangle] pub extern "C" fn c18_t1_3i() { notation::token_run(1, Some(3), 3) }
#[no_mangle] pub extern "C" fn c18_t1_3p() { notation::token_run(1, Some(3), 4) }
#[no_mangle] pub extern "C" fn c18_t1_3v() { notation::token_run(1, Some(3), 5) }
#[no_mangle] pub extern "C" fn c18_t1_3y() { notation::token_run(1, Some(3), 6) }
#[no_mangle] pub extern "C" fn c18_t1_3q() { notation::token_run(1, Some(3), 7) }
#[no_mangle] pub extern "C" fn c18_t1_4() { notation::token_run(1, Some(4), 0) }
#[no_mangle] pub extern "C" fn c18_t1_4r() { notation::token_run(1, Some(4), 1) }
#[no_mangle] pub extern "C" fn c18_t1_4t() { notation::token_run(1, Some(4), 2) }
#[no_mangle] pub extern "C" fn c18_t1_4i() { notation::token_run(1, Some(4), 3) }
#[no_mangle] pub extern "C" fn c18_t1_4p() { notation::token_run(1, Some(4), 4) }
#[no_mangle] pub extern "C" fn c18_t1_4v() { notation::token_run(1, Some(4), 5) }
#[no_mangle] pub extern "C" fn c18_t1_4y() { notation::token_run(1, Some(4), 6) }
#[no_mangle] pub extern "C" fn c18_t1_4q() { notation::token_run(1, Some(4), 7) }
#[no_mangle] pub extern "C" fn c18_t1_5() { notation::token_run(1, Some(5), 0) }
#[no_mangle] pub extern "C" fn c18_t1_5r() { notation::token_run(1, Some(5), 1) }
#[no_mangle] pub extern "C" fn c18_t1_5t() { notation::token_run(1, Some(5), 2) }
#[no_mangle] pub extern "C" fn c18_t1_5i() { notation::token_run(1, Some(5), 3) }
#[no_mangle] pub extern "C" fn c18_t1_5p() { notation::token_run(1, Some(5), 4) }
#[no_mangle] pub extern "C" fn c18_t1_5v() { notation::token_run(1, Some(5), 5) }
#[no_mangle] pub extern "C" fn c18_t1_5y() { notation::token_run(1, Some(5), 6) }
#[no_mangle] pub extern "C" fn c18_t1_5q() { notation::token_run(1, Some(5), 7) }
#[no_mangle] pub extern "C" fn c18_t1_6() { notation::token_run(1, Some(6), 0) }
#[no_mangle] pub extern "C" fn c18_t1_6r() { notation::token_run(1, Some(6), 1) }
#[no_mangle] pub extern "C" fn c18_t1_6t() { notation::token_run(1, Some(6), 2) }
#[no_mangle] pub extern "C" fn c18_t1_6i() { notation::token_run(1, Some(6), 3) }
#[no_mangle] pub extern "C" fn c18_t1_6p() { notation::token_run(1, Some(6), 4) }
#[no_mangle] pub extern "C" fn c18_t1_6v() { notation::token_run(1, Some(6), 5) }
#[no_mangle] pub extern "C" fn c18_t1_6y() { notation::token_run(1, Some(6), 6) }
#[no_mangle] pub extern "C" fn c18_t1_6q() { notation::token_run(1, Some(6), 7) }
#[no_mangle] pub extern "C" fn c18_t1_7() { notation::token_run(1, Some(7), 0) }
#[no_mangle] pub extern "C" fn c18_t1_7r() { notation::token_run(1, Some(7), 1) }
#[no_mangle] pub extern "C" fn c18_t1_7t() { notation::token_run(1, Some(7), 2) }
#[no_mangle] pub extern "C" fn c18_t1_7i() { notation::token_run(1, Some(7), 3) }
#[no_mangle] pub extern "C" fn c18_t1_7p() { notation::token_run(1, Some(7), 4) }
#[no_mangle] pub extern "C" fn c18_t1_7v() { notation::token_run(1, Some(7), 5) }
#[no_mangle] pub extern "C" fn c18_t1_7y() { notation::token_run(1, Some(7), 6) }
#[no_mangle] pub extern "C" fn c18_t1_7q() { notation::token_run(1, Some(7), 7) }
#[no_mangle] pub extern "C" fn c18_t1_8() { notation::token_run(1, Some(8), 0) }
#[no_mangle] pub extern "C" fn c18_t1_8r() { notation::token_run(1, Some(8), 1) }
#[no_mangle] pub extern "C" fn c18_t1_8t() { notation::token_run(1, Some(8), 2) }
#[no_mangle] pub extern "C" fn c18_t1_8i() { notation::token_run(1, Some(8), 3) }
#[no_mangle] pub extern "C" fn c18_t1_8p() { notation::token_run(1, Some(8), 4) }
#[no_mangle] pub extern "C" fn c18_t1_8v() { notation::token_run(1, Some(8), 5) }
#[no_mangle] pub extern "C" fn c18_t1_8y() { notation::token_run(1, Some(8), 6) }
#[no_mangle] pub extern "C" fn c18_t1_8q() { notation::token_run(1, Some(8), 7) }
#[no_mangle] pub extern "C" fn c18_t1_9() { notation::token_run(1, Some(9), 0) }
#[no_mangle] pub extern "C" fn c18_t1_9r() { notation::token_run(1, Some(9), 1) }
#[no_mangle] pub extern "C" fn c18_t1_9t() { notation::token_run(1, Some(9), 2) }
#[no_mangle] pub extern "C" fn c18_t1_9i() { notation::token_run(1, Some(9), 3) }
#[no_mangle] pub extern "C" fn c18_t1_9p() { notation::token_run(1, Some(9), 4) }
#[no_mangle] pub extern "C" fn c18_t1_9v() { notation::token_run(1, Some(9), 5) }
#[no_mangle] pub extern "C" fn c18_t1_9y() { notation::token_run(1, Some(9), 6) }
#[no_mangle] pub extern "C" fn c18_t1_9q() { notation::token_run(1, Some(9), 7) }
#[no_mangle] pub extern "C" fn c18_t1_10() { notation::token_run(1, Some(10), 0) }
#[no_mangle] pub extern "C" fn c18_t1_10r() { notation::token_run(1, Some(10), 1) }
#[no_mangle] pub extern "C" fn c18_t1_10t() { notation::token_run(1, Some(10), 2) }
#[no_mangle] pub extern "C" fn c18_t1_10i() { notation::token_run(1, Some(10), 3) }
#[no_mangle] pub extern "C" fn c18_t1_10p() { notation::token_run(1, Some(10), 4) }
#[no_mangle] pub extern "C" fn c18_t1_10v() { notation::token_run(1, Some(10), 5) }
#[no_mangle] pub extern "C" fn c18_t1_10y() { notation::token_run(1, Some(10), 6) }
#[no_mangle] pub extern "C" fn c18_t1_10q() { notation::token_run(1, Some(10), 7) }
#[no_mangle] pub extern "C" fn c18_t1_11() { notation::token_run(1, Some(11), 0) }
#[no_mangle] pub extern "C" fn c18_t1_11r() { notation::token_run(1, Some(11), 1) }
#[no_mangle] pub extern "C" fn c18_t1_11t() { notation::token_run(1, Some(11), 2) }
#[no_mangle] pub extern "C" fn c18_t1_11i() { notation::token_run(1, Some(11), 3) }
#[no_mangle] pub extern "C" fn c18_t1_11p() { notation::token_run(1, Some(11), 4) }
#[no_mangle] pub extern "C" fn c18_t1_11v() { notation::token_run(1, Some(11), 5) }
#[no_mangle] pub extern "C" fn c18_t1_11y() { notation::token_run(1, Some(11), 6) }
#[no_mangle] pub extern "C" fn c18_t1_11q() { notation::token_run(1, Some(11), 7) }
#[no_mangle] pub extern "C" fn c18_t1_12() { notation::token_run(1, Some(12), 0) }
#[no_mangle] pub extern "C" fn c18_t1_12r() { notation::token_run(1, Some(12), 1) }
#[no_mangle] pub extern "C" fn c18_t1_12t() { notation::token_run(1, Some(12), 2) }
#[no_mangle] pub extern "C" fn c18_t1_12i() { notation::token_run(1, Some(12), 3) }
#[no_mangle] pub extern "C" fn c18_t1_12p() { notation::token_run(1, Some(12), 4) }
#[no_mangle] pub extern "C" fn c18_t1_12v() { notation::token_run(1, Some(12), 5) }
#[no_mangle] pub extern "C" fn c18_t1_12y() { notation::token_run(1, Some(12), 6) }
#[no_mangle] pub extern "C" fn c18_t1_12q() { notation::token_run(1, Some(12), 7) }
#[no_mangle] pub extern "C" fn c18_t1_13() { notation::token_run(1, Some(13), 0) }
#[no_mangle] pub extern "C" fn c18_t1_13r() { notation::token_run(1, Some(13), 1) }
#[no_mangle] pub extern "C" fn c18_t1_13t() { notation::token_run(1, Some(13), 2) }
#[no_mangle] pub extern "C" fn c18_t1_13i() { notation::token_run(1, Some(13), 3) }
#[no_mangle] pub extern "C" fn c18_t1_13p() { notation::token_run(1, Some(13), 4) }
#[no_mangle] pub extern "C" fn c18_t1_13v() { notation::token_run(1, Some(13), 5) }
#[no_mangle] pub extern "C" fn c18_t1_13y() { notation::token_run(1, Some(13), 6) }
#[no_mangle] pub extern "C" fn c18_t1_13q() { notation::token_run(1, Some(13), 7) }
#[no_mangle] pub extern "C" fn c18_t2_0() { notation::token_run(2, Some(0), 0) }
#[no_mangle] pub extern "C" fn c18_t2_0r() { notation::token_run(2, Some(0), 1) }
#[no_mangle] pub extern "C" fn c18_t2_0t() { notation::token_run(2, Some(0), 2) }
#[no_mangle] pub extern "C" fn c18_t2_0i() { notation::token_run(2, Some(0), 3) }
#[no_mangle] pub extern "C" fn c18_t2_0p() { notation::token_run(2, Some(0), 4) }
#[no_mangle] pub extern "C" fn c18_t2_0v() { notation::token_run(2, Some(0), 5) }
#[no_mangle] pub extern "C" fn c18_t2_0y() { notation::token_run(2, Some(0), 6) }
#[no_mangle] pub extern "C" fn c18_t2_0q() { notation::token_run(2, Some(0), 7) }
#[no_mangle] pub extern "C" fn c18_t2_1() { notation::token_run(2, Some(1), 0) }
#[no_mangle] pub extern "C" fn c18_t2_1r() { notation::token_run(2, Some(1), 1) }
#[no_mangle] pub extern "C" fn c18_t2_1t() { notation::token_run(2, Some(1), 2) }
#[no_mangle] pub extern "C" fn c18_t2_1i() { notation::token_run(2, Some(1), 3) }
#[no_mangle] pub extern "C" fn c18_t2_1p() { notation::token_run(2, Some(1), 4) }
#[no_mangle] pub extern "C" fn c18_t2_1v() { notation::token_run(2, Some(1), 5) }
#[no_mangle] pub extern "C" fn c18_t2_1y() { notation::token_run(2, Some(1), 6) }
#[no_mangle] pub extern "C" fn c18_t2_1q() { notation::token_run(2, Some(1), 7) }
#[no_mangle] pub extern "C" fn c18_t2_2() { notation::token_run(2, Some(2), 0) }
#[no_mangle] pub extern "C" fn c18_t2_2r() { notation::token_run(2, Some(2), 1) }
#[no_mangle] pub extern "C" fn c18_t2_2t() { notation::token_run(2, Some(2), 2) }
#[no_mangle] pub extern "C" fn c18_t2_2i() { notation::token_run(2, Some(2), 3) }
#[no_mangle] pub extern "C" fn c18_t2_2p() { notation::token_run(2, Some(2), 4) }
#[no_mangle] pub extern "C" fn c18_t2_2v() { notation::token_run(2, Some(2), 5) }
#[no_mangle] pub extern "C" fn c18_t2_2y() { notation::token_run(2, Some(2), 6) }
#[no_mangle] pub extern "C" fn c18_t2_2q() { notation::token_run(2, Some(2), 7) }
#[no_mangle] pub extern "C" fn c18_t2_3() { notation::token_run(2, Some(3), 0) }
#[no_mangle] pub extern "C" fn c18_t2_3r() { notation::token_run(2, Some(3), 1) }
#[no_mangle] pub extern "C" fn c18_t2_3t() { notation::token_run(2, Some(3), 2) }
#[no_mangle] pub extern "C" fn c18_t2_3i() { notation::token_run(2, Some(3), 3) }
#[no_mangle] pub extern "C" fn c18_t2_3p() { notation::token_run(2, Some(3), 4) }
#[no_mangle] pub extern "C" fn c18_t2_3v() { notation::token_run(2, Some(3), 5) }
#[no_mangle] pub extern "C" fn c18_t2_3y() { notation::token_run(2, Some(3), 6) }
#[no_mangle] pub extern "C" fn c18_t2_3q() { notation::token_run(2, Some(3), 7) }
#[no_mangle] pub extern "C" fn c18_t2_4() { notation::token_run(2, Some(4), 0) }
#[no_mangle] pub extern "C" fn c18_t2_4r() { notation::token_run(2, Some(4), 1) }
#[no_mangle] pub extern "C" fn c18_t2_4t() { notation::token_run(2, Some(4), 2) }
#[no_mangle] pub extern "C" fn c18_t2_4i() { notation::token_run(2, Some(4), 3) }
#[no_mangle] pub extern "C" fn c18_t2_4p() { notation::token_run(2, Some(4), 4) }
#[no_mangle] pub extern "C" fn c18_t2_4v() { notation::token_run(2, Some(4), 5) }
#[no_mangle] pub extern "C" fn c18_t2_4y() { notation::token_run(2, Some(4), 6) }
#[no_mangle] pub extern "C" fn c18_t2_4q() { notation::token_run(2, Some(4), 7) }
#[no_mangle] pub extern "C" fn c18_t2_5() { notation::token_run(2, Some(5), 0) }
#[no_mangle] pub extern "C" fn c18_t2_5r() { notation::token_run(2, Some(5), 1) }
#[no_mangle] pub extern "C" fn c18_t2_5t() { notation::token_run(2, Some(5), 2) }
#[no_mangle] pub extern "C" fn c18_t2_5i() { notation::token_run(2, Some(5), 3) }
#[no_mangle] pub extern "C" fn c18_t2_5p() { notation::token_run(2, Some(5), 4) }
#[no_mangle] pub extern "C" fn c18_t2_5v() { notation::token_run(2, Some(5), 5) }
#[no_mangle] pub extern "C" fn c18_t2_5y() { notation::token_run(2, Some(5), 6) }
#[no_mangle] pub extern "C" fn c18_t2_5q() { notation::token_run(2, Some(5), 7) }
#[no_mangle] pub extern "C" fn c18_t2_6() { notation::token_run(2, Some(6), 0) }
#[no_mangle] pub extern "C" fn c18_t2_6r() { notation::token_run(2, Some(6), 1) }
#[no_mangle] pub extern "C" fn c18_t2_6t() { notation::token_run(2, Some(6), 2) }
#[no_mangle] pub extern "C" fn c18_t2_6i() { notation::token_run(2, Some(6), 3) }
#[no_mangle] pub extern "C" fn c18_t2_6p() { notation::token_run(2, Some(6), 4) }
#[no_mangle] pub extern "C" fn c18_t2_6v() { notation::token_run(2, Some(6), 5) }
#[no_mangle] pub extern "C" fn c18_t2_6y() { notation::token_run(2, Some(6), 6) }
#[no_mangle] pub extern "C" fn c18_t2_6q() { notation::token_run(2, Some(6), 7) }
#[no_mangle] pub extern "C" fn c18_t2_7() { notation::token_run(2, Some(7), 0) }
#[no_mangle] pub extern "C" fn c18_t2_7r() { notation::token_run(2, Some(7), 1) }
#[no_mangle] pub extern "C" fn c18_t2_7t() { notation::token_run(2, Some(7), 2) }
#[no_mangle] pub extern "C" fn c18_t2_7i() { notation::token_run(2, Some(7), 3) }
#[no_mangle] pub extern "C" fn c18_t2_7p() { notation::token_run(2, Some(7), 4) }
#[no_mangle] pub extern "C" fn c18_t2_7v() { notation::token_run(2, Some(7), 5) }
#[no_mangle] pub extern "C" fn c18_t2_7y() { notation::token_run(2, Some(7), 6) }
#[no_mangle] pub extern "C" fn c18_t2_7q() { notation::token_run(2, Some(7), 7) }
#[no_mangle] pub extern "C" fn c18_t2_8() { notation::token_run(2, Some(8), 0) }
#[no_mangle] pub extern "C" fn c18_t2_8r() { notation::token_run(2, Some(8), 1) }
#[no_mangle] pub extern "C" fn c18_t2_8t() { notation::token_run(2, Some(8), 2) }
#[no_mangle] pub extern "C" fn c18_t2_8i() { notation::token_run(2, Some(8), 3) }
#[no_mangle] pub extern "C" fn c18_t2_8p() { notation::token_run(2, Some(8), 4) }
#[no_mangle] pub extern "C" fn c18_t2_8v() { notation::token_run(2, Some(8), 5) }
#[no_mangle] pub extern "C" fn c18_t2_8y() { notation::token_run(2, Some(8), 6) }
#[no_mangle] pub extern "C" fn c18_t2_8q() { notation::token_run(2, Some(8), 7) }
#[no_mangle] pub extern "C" fn c18_t2_9() { notation::token_run(2, Some(9), 0) }
#[no_mangle] pub extern "C" fn c18_t2_9r() { notation::token_run(2, Some(9), 1) }
#[no_mangle] pub extern "C" fn c18_t2_9t() { notation::token_run(2, Some(9), 2) }
#[no_mangle] pub extern "C" fn c18_t2_9i() { notation::token_run(2, Some(9), 3) }
#[no_mangle] pub extern "C" fn c18_t2_9p() { notation::token_run(2, Some(9), 4) }
#[no_mangle] pub extern "C" fn c18_t2_9v() { notation::token_run(2, Some(9), 5) }
#[no_mangle] pub extern "C" fn c18_t2_9y() { notation::token_run(2, Some(9), 6) }
#[no_mangle] pub extern "C" fn c18_t2_9q() { notation::token_run(2, Some(9), 7) }
#[no_mangle] pub extern "C" fn c18_t2_10() { notation::token_run(2, Some(10), 0) }
#[no_mangle] pub extern "C" fn c18_t2_10r() { notation::token_run(2, Some(10), 1) }
#[no_mangle] pub extern "C" fn c18_t2_10t() { notation::token_run(2, Some(10), 2) }
#[no_mangle] pub extern "C" fn c18_t2_10i() { notation::token_run(2, Some(10), 3) }
#[no_mangle] pub extern "C" fn c18_t2_10p() { notation::token_run(2, Some(10), 4) }
#[no_mangle] pub extern "C" fn c18_t2_10v() { notation::token_run(2, Some(10), 5) }
#[no_mangle] pub extern "C" fn c18_t2_10y() { notation::token_run(2, Some(10), 6) }
#[no_mangle] pub extern "C" fn c18_t2_10q() { notation::token_run(2, Some(10), 7) }
#[no_mangle] pub extern "C" fn c18_t2_11() { notation::token_run(2, Some(11), 0) }
#[no_mangle] pub extern "C" fn c18_t2_11r() { notation::token_run(2, Some(11), 1) }
#[no_mangle] pub extern "C" fn c18_t2_11t() { notation::token_run(2, Some(11), 2) }
#[no_mangle] pub extern "C" fn c18_t2_11i() { notation::token_run(2, Some(11), 3) }
#[no_mangle] pub extern "C" fn c18_t2_11p() { notation::token_run(2, Some(11), 4) }
#[no_mangle] pub extern "C" fn c18_t2_11v() { notation::token_run(2, Some(11), 5) }
#[no_mangle] pub extern "C" fn c18_t2_11y() { notation::token_run(2, Some(11), 6) }
#[no_mangle] pub extern "C" fn c18_t2_11q() { notation::token_run(2, Some(11), 7) }
#[no_mangle] pub extern "C" fn c18_t2_12() { notation::token_run(2, Some(12), 0) }
#[no_mangle] pub extern "C" fn c18_t2_12r() { notation::token_run(2, Some(12), 1) }
#[no_mangle] pub extern "C" fn c18_t2_12t() { notation::token_run(2, Some(12), 2) }
#[no_mangle] pub extern "C" fn c18_t2_12i() { notation::token_run(2, Some(12), 3) }
#[no_mangle] pub extern "C" fn c18_t2_12p() { notation::token_run(2, Some(12), 4) }
#[no_mangle] pub extern "C" fn c18_t2_12v() { notation::token_run(2, Some(12), 5) }
#[no_mangle] pub extern "C" fn c18_t2_12y() { notation::token_run(2, Some(12), 6) }
#[no_mangle] pub extern "C" fn c18_t2_12q() { notation::token_run(2, Some(12), 7) }
#[no_mangle] pub extern "C" fn c18_t2_13() { notation::token_run(2, Some(13), 0) }
#[no_mangle] pub extern "C" fn c18_t2_13r() { notation::token_run(2, Some(13), 1) }
#[no_mangle] pub extern "C" fn c18_t2_13t() { notation::token_run(2, Some(13), 2) }
#[no_mangle] pub extern "C" fn c18_t2_13i() { notation::token_run(2, Some(13), 3) }
#[no_mangle] pub extern "C" fn c18_t2_13p() { notation::token_run(2, Some(13), 4) }
#[no_mangle] pub extern "C" fn c18_t2_13v() { notation::token_run(2, Some(13), 5) }
#[no_mangle] pub extern "C" fn c18_t2_13y() { notation::token_run(2, Some(13), 6) }
#[no_mangle] pub extern "C" fn c18_t2_13q() { notation::token_run(2, Some(13), 7) }
#[no_mangle] pub extern "C" fn c18_t3_0() { notation::token_run(3, Some(0), 0) }
#[no_mangle] pub extern "C" fn c18_t3_0r() { notation::token_run(3, Some(0), 1) }
#[no_mangle] pub extern "C" fn c18_t3_0t() { notation::token_run(3, Some(0), 2) }
#[no_mangle] pub extern "C" fn c18_t3_0i() { notation::token_run(3, Some(0), 3) }
#[no_mangle] pub extern "C" fn c18_t3_0p() { notation::token_run(3, Some(0), 4) }
#[no_mangle] pub extern "C" fn c18_t3_0v() { notation::token_run(3, Some(0), 5) }
#[no_mangle] pub extern "C" fn c18_t3_0y() { notation::token_run(3, Some(0), 6) }
#[no_mangle] pub extern "C" fn c18_t3_0q() { notation::token_run(3, Some(0), 7) }
#[no_mangle] pub extern "C" fn c18_t3_1() { notation::token_run(3, Some(1), 0) }
#[no_mangle] pub extern "C" fn c18_t3_1r() { notation::token_run(3, Some(1), 1) }
#[no_mangle] pub extern "C" fn c18_t3_1t() { notation::token_run(3, Some(1), 2) }
#[no_mangle] pub extern "C" fn c18_t3_1i() { notation::token_run(3, Some(1), 3) }
#[no_mangle] pub extern "C" fn c18_t3_1p() { notation::token_run(3, Some(1), 4) }
#[no_mangle] pub extern "C" fn c18_t3_1v() { notation::token_run(3, Some(1), 5) }
#[no_mangle] pub extern "C" fn c18_t3_1y() { notation::token_run(3, Some(1), 6) }
#[no_mangle] pub extern "C" fn c18_t3_1q() { notation::token_run(3, Some(1), 7) }
#[no_mangle] pub extern "C" fn c18_t3_2() { notation::token_run(3, Some(2), 0) }
#[no_mangle] pub extern "C" fn c18_t3_2r() { notation::token_run(3, Some(2), 1) }
#[no_mangle] pub extern "C" fn c18_t3_2t() { notation::token_run(3, Some(2), 2) }
#[no_mangle] pub extern "C" fn c18_t3_2i() { notation::token_run(3, Some(2), 3) }
#[no_mangle] pub extern "C" fn c18_t3_2p() { notation::token_run(3, Some(2), 4) }
#[no_mangle] pub extern "C" fn c18_t3_2v() { notation::token_run(3, Some(2), 5) }
#[no_mangle] pub extern "C" fn c18_t3_2y() { notation::token_run(3, Some(2), 6) }
#[no_mangle] pub extern "C" fn c18_t3_2q() { notation::token_run(3, Some(2), 7) }
#[no_mangle] pub extern "C" fn c18_t3_3() { notation::token_run(3, Some(3), 0) }
#[no_mangle] pub extern "C" fn c18_t3_3r() { notation::token_run(3, Some(3), 1) }
#[no_mangle] pub extern "C" fn c18_t3_3t() { notation::token_run(3, Some(3), 2) }
#[no_mangle] pub extern "C" fn c18_t3_3i() { notation::token_run(3, Some(3), 3) }
#[no_mangle] pub extern "C" fn c18_t3_3p() { notation::token_run(3, Some(3), 4) }
#[no_mangle] pub extern "C" fn c18_t3_3v() { notation::token_run(3, Some(3), 5) }
#[no_mangle] pub extern "C" fn c18_t3_3y() { notation::token_run(3, Some(3), 6) }
#[no_mangle] pub extern "C" fn c18_t3_3q() { notation::token_run(3, Some(3), 7) }
#[no_mangle] pub extern "C" fn c18_t3_4() { notation::token_run(3, Some(4), 0) }
#[no_mangle] pub extern "C" fn c18_t3_4r() { notation::token_run(3, Some(4), 1) }
#[no_mangle] pub extern "C" fn c18_t3_4t() { notation::token_run(3, Some(4), 2) }
#[no_mangle] pub extern "C" fn c18_t3_4i() { notation::token_run(3, Some(4), 3) }
#[no_mangle] pub extern "C" fn c18_t3_4p() { notation::token_run(3, Some(4), 4) }
#[no_mangle] pub extern "C" fn c18_t3_4v() { notation::token_run(3, Some(4), 5) }
#[no_mangle] pub extern "C" fn c18_t3_4y() { notation::token_run(3, Some(4), 6) }
#[no_mangle] pub extern "C" fn c18_t3_4q() { notation::token_run(3, Some(4), 7) }
#[no_mangle] pub extern "C" fn c18_t3_5() { notation::token_run(3, Some(5), 0) }
#[no_mangle] pub extern "C" fn c18_t3_5r() { notation::token_run(3, Some(5), 1) }
#[no_mangle] pub extern "C" fn c18_t3_5t() { notation::token_run(3, Some(5), 2) }
#[no_mangle] pub extern "C" fn c18_t3_5i() { notation::token_run(3, Some(5), 3) }
#[no_mangle] pub extern "C" fn c18_t3_5p() { notation::token_run(3, Some(5), 4) }
#[no_mangle] pub extern "C" fn c18_t3_5v() { notation::token_run(3, Some(5), 5) }
#[no_mangle] pub extern "C" fn c18_t3_5y() { notation::token_run(3, Some(5), 6) }
#[no_mangle] pub extern "C" fn c18_t3_5q() { notation::token_run(3, Some(5), 7) }
#[no_mangle] pub extern "C" fn c18_t3_6() { notation::token_run(3, Some(6), 0) }
#[no_mangle] pub extern "C" fn c18_t3_6r() { notation::token_run(3, Some(6), 1) }
#[no_mangle] pub extern "C" fn c18_t3_6t() { notation::token_run(3, Some(6), 2) }
#[no_mangle] pub extern "C" fn c18_t3_6i() { notation::token_run(3, Some(6), 3) }
#[no_mangle] pub extern "C" fn c18_t3_6p() { notation::token_run(3, Some(6), 4) }
#[no_mangle] pub extern "C" fn c18_t3_6v() { notation::token_run(3, Some(6), 5) }
#[no_mangle] pub extern "C" fn c18_t3_6y() { notation::token_run(3, Some(6), 6) }
#[no_mangle] pub extern "C" fn c18_t3_6q() { notation::token_run(3, Some(6), 7) }
#[no_mangle] pub extern "C" fn c18_t3_7() { notation::token_run(3, Some(7), 0) }
#[no_mangle] pub extern "C" fn c18_t3_7r() { notation::token_run(3, Some(7), 1) }
#[no_mangle] pub extern "C" fn c18_t3_7t() { notation::token_run(3, Some(7), 2) }
#[no_mangle] pub extern "C" fn c18_t3_7i() { notation::token_run(3, Some(7), 3) }
#[no_mangle] pub extern "C" fn c18_t3_7p() { notation::token_run(3, Some(7), 4) }
#[no_mangle] pub extern "C" fn c18_t3_7v() { notation::token_run(3, Some(7), 5) }
#[no_mangle] pub extern "C" fn c18_t3_7y() { notation::token_run(3, Some(7), 6) }
#[no_mangle] pub extern "C" fn c18_t3_7q() { notation::token_run(3, Some(7), 7) }
#[no_mangle] pub extern "C" fn c18_t3_8() { notation::token_run(3, Some(8), 0) }
#[no_mangle] pub extern "C" fn c18_t3_8r() { notation::token_run(3, Some(8), 1) }
#[no_mangle] pub extern "C" fn c18_t3_8t() { notation::token_run(3, Some(8), 2) }
#[no_mangle] pub extern "C" fn c18_t3_8i() { notation::token_run(3, Some(8), 3) }
#[no_mangle] pub extern "C" fn c18_t3_8p() { notation::token_run(3, Some(8), 4) }
#[no_mangle] pub extern "C" fn c18_t3_8v() { notation::token_run(3, Some(8), 5) }
#[no_mangle] pub extern "C" fn c18_t3_8y() { notation::token_run(3, Some(8), 6) }
#[no_mangle] pub extern "C" fn c18_t3_8q() { notation::token_run(3, Some(8), 7) }
#[no_mangle] pub extern "C" fn c18_t3_9() { notation::token_run(3, Some(9), 0) }
#[no_mangle] pub extern "C" fn c18_t3_9r() { notation::token_run(3, Some(9), 1) }
#[no_mangle] pub extern "C" fn c18_t3_9t() { notation::token_run(3, Some(9), 2) }
#[no_mangle] pub extern "C" fn c18_t3_9i() { notation::token_run(3, Some(9), 3) }
#[no_mangle] pub extern "C" fn c18_t3_9p() { notation::token_run(3, Some(9), 4) }
#[no_mangle] pub extern "C" fn c18_t3_9v() { notation::token_run(3, Some(9), 5) }
#[no_mangle] pub extern "C" fn c18_t3_9y() { notation::token_run(3, Some(9), 6) }
#[no_mangle] pub extern "C" fn c18_t3_9q() { notation::token_run(3, Some(9), 7) }
#[no_mangle] pub extern "C" fn c18_t3_10() { notation::token_run(3, Some(10), 0) }
#[no_mangle] pub extern "C" fn c18_t3_10r() { notation::token_run(3, Some(10), 1) }
#[no_mangle] pub extern "C" fn c18_t3_10t() { notation::token_run(3, Some(10), 2) }
#[no_mangle] pub extern "C" fn c18_t3_10i() { notation::token_run(3, Some(10), 3) }
#[no_mangle] pub extern "C" fn c18_t3_10p() { notation::token_run(3, Some(10), 4) }
#[no_mangle] pub extern "C" fn c18_t3_10v() { notation::token_run(3, Some(10), 5) }
#[no_mangle] pub extern "C" fn c18_t3_10y() { notation::token_run(3, Some(10), 6) }
#[no_mangle] pub extern "C" fn c18_t3_10q() { notation::token_run(3, Some(10), 7) }
#[no_mangle] pub extern "C" fn c18_t3_11() { notation::token_run(3, Some(11), 0) }
#[no_mangle] pub extern "C" fn c18_t3_11r() { notation::token_run(3, Some(11), 1) }
#[no_mangle] pub extern "C" fn c18_t3_11t() { notation::token_run(3, Some(11), 2) }
#[no_mangle] pub extern "C" fn c18_t3_11i() { notation::token_run(3, Some(11), 3) }
#[no_mangle] pub extern "C" fn c18_t3_11p() { notation::token_run(3, Some(11), 4) }
#[no_mangle] pub extern "C" fn c18_t3_11v() { notation::token_run(3, Some(11), 5) }
#[no_mangle] pub extern "C" fn c18_t3_11y() { notation::token_run(3, Some(11), 6) }
#[no_mangle] pub extern "C" fn c18_t3_11q() { notation::token_run(3, Some(11), 7) }
#[no_mangle] pub extern "C" fn c18_t3_12() { notation::token_run(3, Some(12), 0) }
#[no_mangle] pub extern "C" fn c18_t3_12r() { notation::token_run(3, Some(12), 1) }
#[no_mangle] pub extern "C" fn c18_t3_12t() { notation::token_run(3, Some(12), 2) }
#[no_mangle] pub extern "C" fn c18_t3_12i() { notation::token_run(3, Some(12), 3) }
#[no_mangle] pub extern "C" fn c18_t3_12p() { notation::token_run(3, Some(12), 4) }
#[no_mangle] pub extern "C" fn c18_t3_12v() { notation::token_run(3, Some(12), 5) }
#[no_mangle] pub extern "C" fn c18_t3_12y() { notation::token_run(3, Some(12), 6) }
#[no_mangle] pub extern "C" fn c18_t3_12q() { notation::token_run(3, Some(12), 7) }
#[no_mangle] pub extern "C" fn c18_t3_13() { notation::token_run(3, Some(13), 0) }
#[no_mangle] pub extern "C" fn c18_t3_13r() { notation::token_run(3, Some(13), 1) }
#[no_mangle] pub extern "C" fn c18_t3_13t() { notation::token_run(3, Some(13), 2) }
#[no_mangle] pub extern "C" fn c18_t3_13i() { notation::token_run(3, Some(13), 3) }
#[no_mangle] pub extern "C" fn c18_t3_13p() { notation::token_run(3, Some(13), 4) }
#[no_mangle] pub extern "C" fn c18_t3_13v() { notation::token_run(3, Some(13), 5) }
#[no_mangle] pub extern "C" fn c18_t3_13y() { notation::token_run(3, Some(13), 6) }
#[no_mangle] pub extern "C" fn c18_t3_13q() { notation::token_run(3, Some(13), 7) }
#[no_mangle] pub extern "C" fn c18_t4_0() { notation::token_run(4, Some(0), 0) }
#[no_mangle] pub extern "C" fn c18_t4_0r() { notation::token_run(4, Some(0), 1) }
#[no_mangle] pub extern "C" fn c18_t4_0t() { notation::token_run(4, Some(0), 2) }
#[no_mangle] pub extern "C" fn c18_t4_0i() { notation::token_run(4, Some(0), 3) }
#[no_mangle] pub extern "C" fn c18_t4_0p() { notation::token_run(4, Some(0), 4) }
#[no_mangle] pub extern "C" fn c18_t4_0v() { notation::token_run(4, Some(0), 5) }
#[no_mangle] pub extern "C" fn c18_t4_0y() { notation::token_run(4, Some(0), 6) }
#[no_mangle] pub extern "C" fn c18_t4_0q() { notation::token_run(4, Some(0), 7) }
#[no_mangle] pub extern "C" fn c18_t4_1() { notation::token_run(4, Some(1), 0) }
#[no_mangle] pub extern "C" fn c18_t4_1r() { notation::token_run(4, Some(1), 1) }
#[no_mangle] pub extern "C" fn c18_t4_1t() { notation::token_run(4, Some(1), 2) }
#[no_mangle] pub extern "C" fn c18_t4_1i() { notation::token_run(4, Some(1), 3) }
#[no_mangle] pub extern "C" fn c18_t4_1p() { notation::token_run(4, Some(1), 4) }
#[no_mangle] pub extern "C" fn c18_t4_1v() { notation::token_run(4, Some(1), 5) }
#[no_mangle] pub extern "C" fn c18_t4_1y() { notation::token_run(4, Some(1), 6) }
#[no_mangle] pub extern "C" fn c18_t4_1q() { notation::token_run(4, Some(1), 7) }
#[no_mangle] pub extern "C" fn c18_t4_2() { notation::token_run(4, Some(2), 0) }
#[no_mangle] pub extern "C" fn c18_t4_2r() { notation::token_run(4, Some(2), 1) }
#[no_mangle] pub extern "C" fn c18_t4_2t() { notation::token_run(4, Some(2), 2) }
#[no_mangle] pub extern "C" fn c18_t4_2i() { notation::token_run(4, Some(2), 3) }
#[no_mangle] pub extern "C" fn c18_t4_2p() { notation::token_run(4, Some(2), 4) }
#[no_mangle] pub extern "C" fn c18_t4_2v() { notation::token_run(4, Some(2), 5) }
#[no_mangle] pub extern "C" fn c18_t4_2y() { notation::token_run(4, Some(2), 6) }
#[no_mangle] pub extern "C" fn c18_t4_2q() { notation::token_run(4, Some(2), 7) }
#[no_mangle] pub extern "C" fn c18_t4_3() { notation::token_run(4, Some(3), 0) }
#[no_mangle] pub extern "C" fn c18_t4_3r() { notation::token_run(4, Some(3), 1) }
#[no_mangle] pub extern "C" fn c18_t4_3t() { notation::token_run(4, Some(3), 2) }
#[no_mangle] pub extern "C" fn c18_t4_3i() { notation::token_run(4, Some(3), 3) }
#[no_mangle] pub extern "C" fn c18_t4_3p() { notation::token_run(4, Some(3), 4) }
#[no_mangle] pub extern "C" fn c18_t4_3v() { notation::token_run(4, Some(3), 5) }
#[no_mangle] pub extern "C" fn c18_t4_3y() { notation::token_run(4, Some(3), 6) }
#[no_mangle] pub extern "C" fn c18_t4_3q() { notation::token_run(4, Some(3), 7) }
#[no_mangle] pub extern "C" fn c18_t4_4() { notation::token_run(4, Some(4), 0) }
#[no_mangle] pub extern "C" fn c18_t4_4r() { notation::token_run(4, Some(4), 1) }
#[no_mangle] pub extern "C" fn c18_t4_4t() { notation::token_run(4, Some(4), 2) }
#[no_mangle] pub extern "C" fn c18_t4_4i() { notation::token_run(4, Some(4), 3) }
#[no_mangle] pub extern "C" fn c18_t4_4p() { notation::token_run(4, Some(4), 4) }
#[no_mangle] pub extern "C" fn c18_t4_4v() { notation::token_run(4, Some(4), 5) }
#[no_mangle] pub extern "C" fn c18_t4_4y() { notation::token_run(4, Some(4), 6) }
#[no_mangle] pub extern "C" fn c18_t4_4q() { notation::token_run(4, Some(4), 7) }
#[no_mangle] pub extern "C" fn c18_t4_5() { notation::token_run(4, Some(5), 0) }
#[no_mangle] pub extern "C" fn c18_t4_5r() { notation::token_run(4, Some(5), 1) }
#[no_mangle] pub extern "C" fn c18_t4_5t() { notation::token_run(4, Some(5), 2) }
#[no_mangle] pub extern "C" fn c18_t4_5i() { notation::token_run(4, Some(5), 3) }
#[no_mangle] pub extern "C" fn c18_t4_5p() { notation::token_run(4, Some(5), 4) }
#[no_mangle] pub extern "C" fn c18_t4_5v() { notation::token_run(4, Some(5), 5) }
#[no_mangle] pub extern "C" fn c18_t4_5y() { notation::token_run(4, Some(5), 6) }
#[no_mangle] pub extern "C" fn c18_t4_5q() { notation::token_run(4, Some(5), 7) }
#[no_mangle] pub extern "C" fn c18_t4_6() { notation::token_run(4, Some(6), 0) }
#[no_mangle] pub extern "C" fn c18_t4_6r() { notation::token_run(4, Some(6), 1) }
#[no_mangle] pub extern "C" fn c18_t4_6t() { notation::token_run(4, Some(6), 2) }
#[no_mangle] pub extern "C" fn c18_t4_6i() { notation::token_run(4, Some(6), 3) }
#[no_mangle] pub extern "C" fn c18_t4_6p() { notation::token_run(4, Some(6), 4) }
#[no_mangle] pub extern "C" fn c18_t4_6v() { notation::token_run(4, Some(6), 5) }
#[no_mangle] pub extern "C" fn c18_t4_6y() { notation::token_run(4, Some(6), 6) }
#[no_mangle] pub extern "C" fn c18_t4_6q() { notation::token_run(4, Some(6), 7) }
#[no_mangle] pub extern "C" fn c18_t4_7() { notation::token_run(4, Some(7), 0) }
#[no_mangle] pub extern "C" fn c18_t4_7r() { notation::token_run(4, Some(7), 1) }
#[no_mangle] pub extern "C" fn c18_t4_7t() { notation::token_run(4, Some(7), 2) }
#[no_mangle] pub extern "C" fn c18_t4_7i() { notation::token_run(4, Some(7), 3) }
#[no_mangle] pub extern "C" fn c18_t4_7p() { notation::token_run(4, Some(7), 4) }
#[no_mangle] pub extern "C" fn c18_t4_7v() { notation::token_run(4, Some(7), 5) }
#[no_mangle] pub extern "C" fn c18_t4_7y() { notation::token_run(4, Some(7), 6) }
#[no_mangle] pub extern "C" fn c18_t4_7q() { notation::token_run(4, Some(7), 7) }
#[no_mangle] pub extern "C" fn c18_t4_8() { notation::token_run(4, Some(8), 0) }
#[no_mangle] pub extern "C" fn c18_t4_8r() { notation::token_run(4, Some(8), 1) }
#[no_mangle] pub extern "C" fn c18_t4_8t() { notation::token_run(4, Some(8), 2) }
#[no_mangle] pub extern "C" fn c18_t4_8i() { notation::token_run(4, Some(8), 3) }
#[no_mangle] pub extern "C" fn c18_t4_8p() { notation::token_run(4, Some(8), 4) }
#[no_mangle] pub extern "C" fn c18_t4_8v() { notation::token_run(4, Some(8), 5) }
#[no_mangle] pub extern "C" fn c18_t4_8y() { notation::token_run(4, Some(8), 6) }
#[no_mangle] pub extern "C" fn c18_t4_8q() { notation::token_run(4, Some(8), 7) }
#[no_mangle] pub extern "C" fn c18_t4_9() { notation::token_run(4, Some(9), 0) }
#[no_mangle] pub extern "C" fn c18_t4_9r() { notation::token_run(4, Some(9), 1) }
#[no_mangle] pub extern "C" fn c18_t4_9t() { notation::token_run(4, Some(9), 2) }
#[no_mangle] pub extern "C" fn c18_t4_9i() { notation::token_run(4, Some(9), 3) }
#[no_mangle] pub extern "C" fn c18_t4_9p() { notation::token_run(4, Some(9), 4) }
#[no_mangle] pub extern "C" fn c18_t4_9v() { notation::token_run(4, Some(9), 5) }
#[no_mangle] pub extern "C" fn c18_t4_9y() { notation::token_run(4, Some(9), 6) }
#[no_mangle] pub extern "C" fn c18_t4_9q() { notation::token_run(4, Some(9), 7) }
#[no_mangle] pub extern "C" fn c18_t4_10() { notation::token_run(4, Some(10), 0) }
#[no_mangle] pub extern "C" fn c18_t4_10r() { notation::token_run(4, Some(10), 1) }
#[no_mangle] pub extern "C" fn c18_t4_10t() { notation::token_run(4, Some(10), 2) }
#[no_mangle] pub extern "C" fn c18_t4_10i() { notation::token_run(4, Some(10), 3) }
#[no_mangle] pub extern "C" fn c18_t4_10p() { notation::token_run(4, Some(10), 4) }
#[no_mangle] pub extern "C" fn c18_t4_10v() { notation::token_run(4, Some(10), 5) }
#[no_mangle] pub extern "C" fn c18_t4_10y() { notation::token_run(4, Some(10), 6) }
#[no_mangle] pub extern "C" fn c18_t4_10q() { notation::token_run(4, Some(10), 7) }
#[no_mangle] pub extern "C" fn c18_t4_11() { notation::token_run(4, Some(11), 0) }
#[no_mangle] pub extern "C" fn c18_t4_11r() { notation::token_run(4, Some(11), 1) }
#[no_mangle] pub extern "C" fn c18_t4_11t() { notation::token_run(4, Some(11), 2) }
#[no_mangle] pub extern "C" fn c18_t4_11i() { notation::token_run(4, Some(11), 3) }
#[no_mangle] pub extern "C" fn c18_t4_11p() { notation::token_run(4, Some(11), 4) }
#[no_mangle] pub extern "C" fn c18_t4_11v() { notation::token_run(4, Some(11), 5) }
#[no_mangle] pub extern "C" fn c18_t4_11y() { notation::token_run(4, Some(11), 6) }
#[no_mangle] pub extern "C" fn c18_t4_11q() { notation::token_run(4, Some(11), 7) }
#[no_mangle] pub extern "C" fn c18_t4_12() { notation::token_run(4, Some(12), 0) }
#[no_mangle] pub extern "C" fn c18_t4_12r() { notation::token_run(4, Some(12), 1) }
#[no_mangle] pub extern "C" fn c18_t4_12t() { notation::token_run(4, Some(12), 2) }
#[no_mangle] pub extern "C" fn c18_t4_12i() { notation::token_run(4, Some(12), 3) }
#[no_mangle] pub extern "C" fn c18_t4_12p() { notation::token_run(4, Some(12), 4) }
#[no_mangle] pub extern "C" fn c18_t4_12v() { notation::token_run(4, Some(12), 5) }
#[no_mangle] pub extern "C" fn c18_t4_12y() { notation::token_run(4, Some(12), 6) }
#[no_mangle] pub extern "C" fn c18_t4_12q() { notation::token_run(4, Some(12), 7) }
#[no_mangle] pub extern "C" fn c18_t4_13() { notation::token_run(4, Some(13), 0) }
#[no_mangle] pub extern "C" fn c18_t4_13r() { notation::token_run(4, Some(13), 1) }
#[no_mangle] pub extern "C" fn c18_t4_13t() { notation::token_run(4, Some(13), 2) }
#[no_mangle] pub extern "C" fn c18_t4_13i() { notation::token_run(4, Some(13), 3) }
#[no_mangle] pub extern "C" fn c18_t4_13p() { notation::token_run(4, Some(13), 4) }
#[no_mangle] pub extern "C" fn c18_t4_13v() { notation::token_run(4, Some(13), 5) }
#[no_mangle] pub extern "C" fn c18_t4_13y() { notation::token_run(4, Some(13), 6) }
#[no_mangle] pub extern "C" fn c18_t4_13q() { notation::token_run(4, Some(13), 7) }
#[no_mangle] pub extern "C" fn c18_t5_0() { notation::token_run(5, Some(0), 0) }
#[no_mangle] pub extern "C" fn c18_t5_0r() { notation::token_run(5, Some(0), 1) }
#[no_mangle] pub extern "C" fn c18_t5_0t() { notation::token_run(5, Some(0), 2) }
#[no_mangle] pub extern "C" fn c18_t5_0i() { notation::token_run(5, Some(0), 3) }
#[no_mangle] pub extern "C" fn c18_t5_0p() { notation::token_run(5, Some(0), 4) }
#[no_mangle] pub extern "C" fn c18_t5_0v() { notation::token_run(5, Some(0), 5) }
#[no_mangle] pub extern "C" fn c18_t5_0y() { notation::token_run(5, Some(0), 6) }
#[no_mangle] pub extern "C" fn c18_t5_0q() { notation::token_run(5, Some(0), 7) }
#[no_mangle] pub extern "C" fn c18_t5_1() { notation::token_run(5, Some(1), 0) }
#[no_mangle] pub extern "C" fn c18_t5_1r() { notation::token_run(5, Some(1), 1) }
#[no_mangle] pub extern "C" fn c18_t5_1t() { notation::token_run(5, Some(1), 2) }
#[no_mangle] pub extern "C" fn c18_t5_1i() { notation::token_run(5, Some(1), 3) }
#[no_mangle] pub extern "C" fn c18_t5_1p() { notation::token_run(5, Some(1), 4) }
#[no_mangle] pub extern "C" fn c18_t5_1v() { notation::token_run(5, Some(1), 5) }
#[no_mangle] pub extern "C" fn c18_t5_1y() { notation::token_run(5, Some(1), 6) }
#[no_mangle] pub extern "C" fn c18_t5_1q() { notation::token_run(5, Some(1), 7) }
#[no_mangle] pub extern "C" fn c18_t5_2() { notation::token_run(5, Some(2), 0) }
#[no_mangle] pub extern "C" fn c18_t5_2r() { notation::token_run(5, Some(2), 1) }
#[no_mangle] pub extern "C" fn c18_t5_2t() { notation::token_run(5, Some(2), 2) }
#[no_mangle] pub extern "C" fn c18_t5_2i() { notation::token_run(5, Some(2), 3) }
#[no_mangle] pub extern "C" fn c18_t5_2p() { notation::token_run(5, Some(2), 4) }
#[no_mangle] pub extern "C" fn c18_t5_2v() { notation::token_run(5, Some(2), 5) }
#[no_mangle] pub extern "C" fn c18_t5_2y() { notation::token_run(5, Some(2), 6) }
#[no_mangle] pub extern "C" fn c18_t5_2q() { notation::token_run(5, Some(2), 7) }
#[no_mangle] pub extern "C" fn c18_t5_3() { notation::token_run(5, Some(3), 0) }
#[no_mangle] pub extern "C" fn c18_t5_3r() { notation::token_run(5, Some(3), 1) }
#[no_mangle] pub extern "C" fn c18_t5_3t() { notation::token_run(5, Some(3), 2) }
#[no_mangle] pub extern "C" fn c18_t5_3i() { notation::token_run(5, Some(3), 3) }
#[no_mangle] pub extern "C" fn c18_t5_3p() { notation::token_run(5, Some(3), 4) }
#[no_mangle] pub extern "C" fn c18_t5_3v() { notation::token_run(5, Some(3), 5) }
#[no_mangle] pub extern "C" fn c18_t5_3y() { notation::token_run(5, Some(3), 6) }
#[no_mangle] pub extern "C" fn c18_t5_3q() { notation::token_run(5, Some(3), 7) }
#[no_mangle] pub extern "C" fn c18_t5_4() { notation::token_run(5, Some(4), 0) }
#[no_mangle] pub extern "C" fn c18_t5_4r() { notation::token_run(5, Some(4), 1) }
#[no_mangle] pub extern "C" fn c18_t5_4t() { notation::token_run(5, Some(4), 2) }
#[no_mangle] pub extern "C" fn c18_t5_4i() { notation::token_run(5, Some(4), 3) }
#[no_mangle] pub extern "C" fn c18_t5_4p() { notation::token_run(5, Some(4), 4) }
#[no_mangle] pub extern "C" fn c18_t5_4v() { notation::token_run(5, Some(4), 5) }
#[no_mangle] pub extern "C" fn c18_t5_4y() { notation::token_run(5, Some(4), 6) }
#[no_mangle] pub extern "C" fn c18_t5_4q() { notation::token_run(5, Some(4), 7) }
#[no_mangle] pub extern "C" fn c18_t5_5() { notation::token_run(5, Some(5), 0) }
#[no_mangle] pub extern "C" fn c18_t5_5r() { notation::token_run(5, Some(5), 1) }
#[no_mangle] pub extern "C" fn c18_t5_5t() { notation::token_run(5, Some(5), 2) }
#[no_mangle] pub extern "C" fn c18_t5_5i() { notation::token_run(5, Some(5), 3) }
#[no_mangle] pub extern "C" fn c18_t5_5p() { notation::token_run(5, Some(5), 4) }
#[no_mangle] pub extern "C" fn c18_t5_5v() { notation::token_run(5, Some(5), 5) }
#[no_mangle] pub extern "C" fn c18_t5_5y() { notation::token_run(5, Some(5), 6) }
#[no_mangle] pub extern "C" fn c18_t5_5q() { notation::token_run(5, Some(5), 7) }
#[no_mangle] pub extern "C" fn c18_t5_6() { notation::token_run(5, Some(6), 0) }
#[no_mangle] pub extern "C" fn c18_t5_6r() { notation::token_run(5, Some(6), 1) }
#[no_mangle] pub extern "C" fn c18_t5_6t() { notation::token_run(5, Some(6), 2) }
#[no_mangle] pub extern "C" fn c18_t5_6i() { notation::token_run(5, Some(6), 3) }
#[no_mangle] pub extern "C" fn c18_t5_6p() { notation::token_run(5, Some(6), 4) }
#[no_mangle] pub extern "C" fn c18_t5_6v() { notation::token_run(5, Some(6), 5) }
#[no_mangle] pub extern "C" fn c18_t5_6y() { notation::token_run(5, Some(6), 6) }
#[no_mangle] pub extern "C" fn c18_t5_6q() { notation::token_run(5, Some(6), 7) }
#[no_mangle] pub extern "C" fn c18_t5_7() { notation::token_run(5, Some(7), 0) }
#[no_mangle] pub extern "C" fn c18_t5_7r() { notation::token_run(5, Some(7), 1) }
#[no_mangle] pub extern "C" fn c18_t5_7t() { notation::token_run(5, Some(7), 2) }
#[no_mangle] pub extern "C" fn c18_t5_7i() { notation::token_run(5, Some(7), 3) }
#[no_mangle] pub extern "C" fn c18_t5_7p() { notation::token_run(5, Some(7), 4) }
#[no_mangle] pub extern "C" fn c18_t5_7v() { notation::token_run(5, Some(7), 5) }
#[no_mangle] pub extern "C" fn c18_t5_7y() { notation::token_run(5, Some(7), 6) }
#[no_mangle] pub extern "C" fn c18_t5_7q() { notation::token_run(5, Some(7), 7) }
#[no_mangle] pub extern "C" fn c18_t5_8() { notation::token_run(5, Some(8), 0) }
#[no_mangle] pub extern "C" fn c18_t5_8r() { notation::token_run(5, Some(8), 1) }
#[no_mangle] pub extern "C" fn c18_t5_8t() { notation::token_run(5, Some(8), 2) }
#[no_mangle] pub extern "C" fn c18_t5_8i() { notation::token_run(5, Some(8), 3) }
#[no_mangle] pub extern "C" fn c18_t5_8p() { notation::token_run(5, Some(8), 4) }
#[no_mangle] pub extern "C" fn c18_t5_8v() { notation::token_run(5, Some(8), 5) }
#[no_mangle] pub extern "C" fn c18_t5_8y() { notation::token_run(5, Some(8), 6) }
#[no_mangle] pub extern "C" fn c18_t5_8q() { notation::token_run(5, Some(8), 7) }
#[no_mangle] pub extern "C" fn c18_t5_9() { notation::token_run(5, Some(9), 0) }
#[no_mangle] pub extern "C" fn c18_t5_9r() { notation::token_run(5, Some(9), 1) }
#[no_mangle] pub extern "C" fn c18_t5_9t() { notation::token_run(5, Some(9), 2) }
#[no_mangle] pub extern "C" fn c18_t5_9i() { notation::token_run(5, Some(9), 3) }
#[no_mangle] pub extern "C" fn c18_t5_9p() { notation::token_run(5, Some(9), 4) }
#[no_mangle] pub extern "C" fn c18_t5_9v() { notation::token_run(5, Some(9), 5) }
#[no_mangle] pub extern "C" fn c18_t5_9y() { notation::token_run(5, Some(9), 6) }
#[no_mangle] pub extern "C" fn c18_t5_9q() { notation::token_run(5, Some(9), 7) }
#[no_mangle] pub extern "C" fn c18_t5_10() { notation::token_run(5, Some(10), 0) }
#[no_mangle] pub extern "C" fn c18_t5_10r() { notation::token_run(5, Some(10), 1) }
#[no_mangle] pub extern "C" fn c18_t5_10t() { notation::token_run(5, Some(10), 2) }
#[no_mangle] pub extern "C" fn c18_t5_10i() { notation::token_run(5, Some(10), 3) }
#[no_mangle] pub extern "C" fn c18_t5_10p() { notation::token_run(5, Some(10), 4) }
#[no_mangle] pub extern "C" fn c18_t5_10v() { notation::token_run(5, Some(10), 5) }
#[no_mangle] pub extern "C" fn c18_t5_10y() { notation::token_run(5, Some(10), 6) }
#[no_mangle] pub extern "C" fn c18_t5_10q() { notation::token_run(5, Some(10), 7) }
#[no_mangle] pub extern "C" fn c18_t5_11() { notation::token_run(5, Some(11), 0) }
#[no_mangle] pub extern "C" fn c18_t5_11r() { notation::token_run(5, Some(11), 1) }
#[no_mangle] pub extern "C" fn c18_t5_11t() { notation::token_run(5, Some(11), 2) }
#[no_mangle] pub extern "C" fn c18_t5_11i() { notation::token_run(5, Some(11), 3) }
#[no_mangle] pub extern "C" fn c18_t5_11p() { notation::token_run(5, Some(11), 4) }
#[no_mangle] pub extern "C" fn c18_t5_11v() { notation::token_run(5, Some(11), 5) }
#[no_mangle] pub extern "C" fn c18_t5_11y() { notation::token_run(5, Some(11), 6) }
#[no_mangle] pub extern "C" fn c18_t5_11q() { notation::token_run(5, Some(11), 7) }
#[no_mangle] pub extern "C" fn c18_t5_12() { notation::token_run(5, Some(12), 0) }
#[no_mangle] pub extern "C" fn c18_t5_12r() { notation::token_run(5, Some(12), 1) }
#[no_mangle] pub extern "C" fn c18_t5_12t() { notation::token_run(5, Some(12), 2) }
#[no_mangle] pub extern "C" fn c18_t5_12i() { notation::token_run(5, Some(12), 3) }
#[no_mangle] pub extern "C" fn c18_t5_12p() { notation::token_run(5, Some(12), 4) }
#[no_mangle] pub extern "C" fn c18_t5_12v() { notation::token_run(5, Some(12), 5) }
#[no_mangle] pub extern "C" fn c18_t5_12y() { notation::token_run(5, Some(12), 6) }
#[no_mangle] pub extern "C" fn c18_t5_12q() { notation::token_run(5, Some(12), 7) }
#[no_mangle] pub extern "C" fn c18_t5_13() { notation::token_run(5, Some(13), 0) }
#[no_mangle] pub extern "C" fn c18_t5_13r() { notation::token_run(5, Some(13), 1) }
#[no_mangle] pub extern "C" fn c18_t5_13t() { notation::token_run(5, Some(13), 2) }
#[no_mangle] pub extern "C" fn c18_t5_13i() { notation::token_run(5, Some(13), 3) }
#[no_mangle] pub extern "C" fn c18_t5_13p() { notation::token_run(5, Some(13), 4) }
#[no_mangle] pub extern "C" fn c18_t5_13v() { notation::token_run(5, Some(13), 5) }
#[no_mangle] pub extern "C" fn c18_t5_13y() { notation::token_run(5, Some(13), 6) }
#[no_mangle] pub extern "C" fn c18_t5_13q() { notation::token_run(5, Some(13), 7) }
entries!(c12_0_0, c12_0_1, c12_0_2, c12_1_0, c12_1_1, c12_1_2, c12_2_0, c12_2_1, c12_2_2, c12_3_0, c12_3_1, c12_3_2, c12_4_0, c12_4_1, c12_5_0, c12_5_1, c12_5_2, c12_6_0, c12_6_1, c12_6_2, c12_7_0, c12_7_1, c12_7_2, c12_8_0, c12_8_1, c12_8_2, c12_9_0, c12_9_1, c12_9_2, c12_10_0, c12_10_1, c12_10_2, c12_11_0, c12_11_1, c12_11_2, c12_11_3, c12_12_0, c12_12_1, c12_12_2, c12_12_3, c12_13_0, c12_13_1, c12_13_2, c12_14_0, c12_14_1, c12_14_2, c12_15_0, c12_15_1, c12_15_2, c12_16_0, c12_16_1, c12_16_2, c12_17_0, c12_17_1, c12_17_2, c12_17_3, c12_17_4, c12_18_0, c12_18_1, c12_18_2, c12_19_0, c12_19_1, c12_19_2, c12_20_0, c12_20_1, c12_20_2, c12_20_3, c12_21_0, c12_21_1, c12_21_2, c12_21_3, c12_21_4, c12_22_0, c12_22_1, c12_22_2, c12_23_0, c12_23_1, c12_23_2, c12_24_0, c12_24_1, c12_24_2, c12_25_0, c12_25_1, c12_25_2, c12_25_3, c12_26_0, c12_26_1, c12_26_2, c12_26_3, c12_27_0, c12_27_1, c12_27_2, c12_27_3, c12_27_4, c12_28_0, c12_28_1, c13_0_0, c13_0_1, c13_0_2, c13_1_0, c13_1_1, c13_1_2, c13_2_0, c13_2_1, c13_2_2, c13_3_0, c13_3_1, c13_3_2, c13_4_0, c13_4_1, c13_5_0, c13_5_1, c13_5_2, c13_6_0, c13_6_1, c13_6_2, c13_7_0, c13_7_1, c13_7_2, c13_8_0, c13_8_1, c13_8_2, c13_9_0, c13_9_1, c13_9_2, c13_10_0, c13_10_1, c13_10_2, c13_11_0, c13_11_1, c13_11_2, c13_11_3, c13_12_0, c13_12_1, c13_12_2, c13_12_3, c13_13_0, c13_13_1, c13_13_2, c13_14_0, c13_14_1, c13_14_2, c13_15_0, c13_15_1, c13_15_2, c13_16_0, c13_16_1, c13_16_2, c13_17_0, c13_17_1, c13_17_2, c13_17_3, c13_17_4, c13_18_0, c13_18_1, c13_18_2, c13_19_0, c13_19_1, c13_19_2, c13_20_0, c13_20_1, c13_20_2, c13_20_3, c13_21_0, c13_21_1, c13_21_2, c13_21_3, c13_21_4, c13_22_0, c13_22_1, c13_22_2, c13_23_0, c13_23_1, c13_23_2, c13_24_0, c13_24_1, c13_24_2, c13_25_0, c13_25_1, c13_25_2, c13_25_3, c13_26_0, c13_26_1, c13_26_2, c13_26_3, c13_27_0, c13_27_1, c13_27_2, c13_27_3, c13_27_4, c13_28_0, c13_28_1, c15_0_0, c15_0_0w, c15_0_1, c15_0_1w, c15_0_2, c15_0_2w, c15_0_3, c15_0_3w, c15_1_0, c15_1_0w, c15_1_1, c15_1_1w, c15_1_2, c15_1_2w, c15_1_3, c15_1_3w, c15_2_0, c15_2_0w, c15_2_1, c15_2_1w, c15_2_2, c15_2_2w, c15_2_3, c15_2_3w, c15_3_0, c15_3_0w, c15_3_1, c15_3_1w, c15_3_2, c15_3_2w, c15_3_3, c15_3_3w, c15_4_0, c15_4_0w, c15_4_1, c15_4_1w, c15_4_2, c15_4_2w, c15_4_3, c15_4_3w, c15_5_0, c15_5_0w, c15_5_1, c15_5_1w, c15_5_2, c15_5_2w, c15_5_3, c15_5_3w, c15_5_4, c15_5_4w, c15_6_0, c15_6_0w, c15_6_1, c15_6_1w, c15_6_2, c15_6_2w, c15_7_0, c15_7_0w, c15_7_1, c15_7_1w, c15_7_2, c15_7_2w, c15_7_3, c15_7_3w, c15_7_4, c15_7_4w, c15_8_0, c15_8_0w, c15_8_1, c15_8_1w, c15_8_2, c15_8_2w, c15_8_3, c15_8_3w, c15_9_0, c15_9_0w, c15_9_1, c15_9_1w, c15_9_2, c15_9_2w, c15_9_3, c15_9_3w, c15_10_0, c15_10_0w, c15_10_1, c15_10_1w, c15_10_2, c15_10_2w, c15_10_3, c15_10_3w, c15_10_4, c15_10_4w, c15_10_5, c15_10_5w, c15_11_0, c15_11_0w, c15_11_1, c15_11_1w, c15_12_0, c15_12_0w, c15_12_1, c15_12_1w, c15_13_0, c15_13_0w, c15_13_1, c15_13_1w, c15_13_2, c15_13_2w, c15_13_3, c15_13_3w, c15_13_4, c15_13_4w, c15_13_5, c15_13_5w, c15_14_0, c15_14_0w, c15_14_1, c15_14_1w, c15_14_2, c15_14_2w, c15_14_3, c15_14_3w, c15_14_4, c15_14_4w, c15_14_5, c15_14_5w, c15_15_0, c15_15_0w, c15_15_1, c15_15_1w, c15_15_2, c15_15_2w, c15_15_3, c15_15_3w, c15_15_4, c15_15_4w, c15_15_5, c15_15_5w, c15_16_0, c15_16_0w, c15_16_1, c15_16_1w, c15_16_2, c15_16_2w, c15_16_3, c15_16_3w, c15_16_4, c15_16_4w, c15_16_5, c15_16_5w, c15_17_0, c15_17_0w, c15_17_1, c15_17_1w, c15_17_2, c15_17_2w, c15_17_3, c15_17_3w, c15_18_0, c15_18_0w, c15_18_1, c15_18_1w, c15_18_2, c15_18_2w, c15_18_3, c15_18_3w, c15_18_4, c15_18_4w, c15_18_5, c15_18_5w, c15_18_6, c15_18_6w, c15_18_7, c15_18_7w, c15_18_8, c15_18_8w, c15_18_9, c15_18_9w, c15_19_0, c15_19_0w, c15_19_1, c15_19_1w, c14_b0, c14_p0, c14_b1, c14_p1, c14_b2, c14_p2, c14_b3, c14_p3, c14_b4, c14_p4, c14_b5, c14_p5, c14_b6, c14_p6, c14_b7, c14_p7, c14_b8, c14_p8, c16_0_0, c16_0_0w, c16_0_1, c16_0_1w, c16_0_2, c16_0_2w, c16_1_0, c16_1_0w, c16_1_1, c16_1_1w, c16_1_2, c16_1_2w, c16_1_3, c16_1_3w, c16_1_4, c16_1_4w, c16_1_5, c16_1_5w, c16_1_6, c16_1_6w, c16_1_7, c16_1_7w, c16_2_0, c16_2_0w, c16_2_1, c16_2_1w, c16_3_0, c16_3_0w, c16_3_1, c16_3_1w, c16_4_0, c16_4_0w, c16_4_1, c16_4_1w, c16_4_2, c16_4_2w, c16_4_3, c16_4_3w, c16_4_4, c16_4_4w, c16_4_5, c16_4_5w, c16_5_0, c16_5_0w, c16_5_1, c16_5_1w, c16_5_2, c16_5_2w, c16_6_0, c16_6_0w, c16_6_1, c16_6_1w, c16_6_2, c16_6_2w, c16_6_3, c16_6_3w, c16_6_4, c16_6_4w, c16_6_5, c16_6_5w, c16_7_0, c16_7_0w, c16_7_1, c16_7_1w, c16_7_2, c16_7_2w, c16_7_3, c16_7_3w, c16_7_4, c16_7_4w, c16_7_5, c16_7_5w, c16_8_0, c16_8_0w, c16_8_1, c16_8_1w, c16_9_0, c16_9_0w, c16_9_1, c16_9_1w, c16_9_2, c16_9_2w, c16_9_3, c16_9_3w, c16_9_4, c16_9_4w, c16_9_5, c16_9_5w, c18_0_0, c18_0_1, c18_0_2, c18_1_0, c18_1_1, c18_1_2, c18_2_0, c18_2_1, c18_2_2, c18_3_0, c18_3_1, c18_3_2, c18_3_3, c18_4_0, c18_4_1, c18_5_0, c18_5_1, c18_5_2, c18_5_3, c18_5_4, c18_6_0, c18_6_1, c18_7_0, c18_7_1, c18_7_2, c18_7_3, c18_7_4, c18_7_5, c18_7_6, c18_7_7, c18_8_0, c18_8_1, c18_8_2, c18_8_3, c18_8_4, c18_8_5, c18_8_6, c18_9_0, c18_9_1, c18_9_2, c18_9_3, c18_10_0, c18_10_1, c18_10_2, c18_10_3, c18_10_4, c18_11_0, c18_11_1, c19_0_0, c19_0_1, c19_0_2, c19_0_3, c19_0_4, c19_0_5, c19_0_6, c19_0_7, c19_0_8, c19_0_9, c19_0_10, c19_0_11, c19_0_12, c19_0_13, c19_0_14, c19_0_15, c19_0_16, c19_0_17, c19_0_18, c19_0_19, c19_1_0, c19_1_1, c19_1_2, c19_1_3, c19_1_4, c19_1_5, c19_1_6, c19_1_7, c19_1_8, c19_1_9, c19_1_10, c19_1_11, c19_1_12, c19_1_13, c19_1_14, c19_1_15, c19_1_16, c19_1_17, c19_1_18, c19_1_19, c19_1_20, c19_1_21, c19_1_22, c19_1_23, c19_2_0, c19_2_1, c19_2_2, c19_2_3, c19_2_4, c19_2_5, c19_2_6, c19_2_7, c19_2_8, c19_2_9, c19_2_10, c19_2_11, c19_3_0, c19_3_1, c19_3_2, c19_3_3, c19_3_4, c19_3_5, c19_3_6, c19_3_7, c19_4_0, c19_4_1, c19_4_2, c19_4_3, c19_4_4, c19_4_5, c19_4_6, c19_4_7, c19_4_8, c19_4_9, c19_4_10, c19_4_11, c19_4_12, c19_4_13, c19_4_14, c19_4_15, c19_4_16, c19_4_17, c19_4_18, c19_4_19, c19_4_20, c19_4_21, c19_4_22, c19_4_23, c19_4_24, c19_4_25, c19_4_26, c19_4_27, c19_4_28, c19_4_29, c19_4_30, c19_4_31, c19_4_32, c19_4_33, c19_4_34, c19_4_35, c19_4_36, c19_4_37, c19_4_38, c19_4_39, c19_4_40, c19_4_41, c19_4_42, c19_4_43, c19_4_44, c19_4_45, c19_4_46, c19_4_47, c19_4_48, c19_4_49, c19_4_50, c19_4_51, c19_4_52, c19_4_53, c19_4_54, c19_4_55, c19_4_56, c19_4_57, c19_4_58, c19_4_59, c19_4_60, c19_4_61, c19_4_62, c19_4_63, c19_4_64, c19_4_65, c19_4_66, c19_4_67, c19_4_68, c19_4_69, c19_4_70, c19_4_71, c19_4_72, c19_4_73, c19_4_74, c19_4_75, c19_4_76, c19_4_77, c19_4_78, c19_4_79, c19_4_80, c19_4_81, c19_4_82, c19_4_83, c19_4_84, c19_4_85, c19_4_86, c19_4_87, c19_4_88, c19_4_89, c19_4_90, c19_4_91, c19_4_92, c19_4_93, c19_4_94, c19_4_95, c19_4_96, c19_4_97, c19_4_98, c19_4_99, c19_4_100, c19_4_101, c19_4_102, c19_4_103, c19_4_104, c19_4_105, c19_4_106, c19_4_107, c19_4_108, c19_4_109, c19_4_110, c19_4_111, c19_4_112, c19_4_113, c19_4_114, c19_4_115, c19_4_116, c19_4_117, c19_4_118, c19_4_119, c19_4_120, c19_4_121, c19_4_122, c19_4_123, c19_4_124, c19_4_125, c19_4_126, c19_4_127, c19_4_128, c19_4_129, c19_4_130, c19_4_131, c19_4_132, c19_4_133, c19_4_134, c19_4_135, c19_4_136, c19_4_137, c19_4_138, c19_4_139, c19_4_140, c19_4_141, c19_4_142, c19_4_143, c19_4_144, c19_4_145, c19_4_146, c19_4_147, c19_4_148, c19_4_149, c19_4_150, c19_4_151, c19_4_152, c19_4_153, c19_4_154, c19_4_155, c19_4_156, c19_4_157, c19_4_158, c19_4_159, c19_4_160, c19_4_161, c19_4_162, c19_4_163, c19_4_164, c19_4_165, c19_4_166, c19_4_167, c19_4_168, c19_4_169, c19_4_170, c19_4_171, c19_4_172, c19_4_173, c19_4_174, c19_4_175, c19_4_176, c19_4_177, c19_4_178, c19_4_179, c19_4_180, c19_4_181, c19_4_182, c19_4_183, c19_4_184, c19_4_185, c19_4_186, c19_4_187, c19_4_188, c19_4_189, c19_4_190, c19_4_191, c19_4_192, c19_4_193, c19_4_194, c19_4_195, c19_4_196, c19_4_197, c19_4_198, c19_4_199, c19_4_200, c19_4_201, c19_4_202, c19_4_203, c19_4_204, c19_4_205, c19_4_206, c19_4_207, c19_4_208, c19_4_209, c19_4_210, c19_4_211, c19_4_212, c19_4_213, c19_4_214, c19_4_215, c19_4_216, c19_4_217, c19_4_218, c19_4_219, c19_4_220, c19_4_221, c19_4_222, c19_4_223, c19_4_224, c19_4_225, c19_4_226, c19_4_227, c19_4_228, c19_4_229, c19_4_230, c19_4_231, c19_4_232, c19_4_233, c19_4_234, c19_4_235, c19_4_236, c19_4_237, c19_4_238, c19_4_239, c19_4_240, c19_4_241, c19_4_242, c19_4_243, c19_4_244, c19_4_245, c19_4_246, c19_4_247, c19_4_248, c19_4_249, c19_4_250, c19_4_251, c19_4_252, c19_4_253, c19_4_254, c19_4_255, c19_4_256, c19_4_257, c19_4_258, c19_4_259, c19_4_260, c19_4_261, c19_4_262, c19_4_263, c19_4_264, c19_4_265, c19_4_266, c19_4_267, c19_4_268, c19_4_269, c19_4_270, c19_4_271, c19_4_272, c19_4_273, c19_4_274, c19_4_275, c19_4_276, c19_4_277, c19_4_278, c19_4_279, c19_4_280, c19_4_281, c19_4_282, c19_4_283, c19_4_284, c19_4_285, c19_4_286, c19_4_287, c19_4_288, c19_4_289, c19_4_290, c19_4_291, c19_4_292, c19_4_293, c19_4_294, c19_4_295, c19_4_296, c19_4_297, c19_4_298, c19_4_299, c19_4_300, c19_4_301, c19_4_302, c19_4_303, c19_4_304, c19_4_305, c19_4_306, c19_4_307, c19_4_308, c19_4_309, c19_4_310, c19_4_311, c19_4_312, c19_4_313, c19_4_314, c19_4_315, c19_4_316, c19_4_317, c19_4_318, c19_4_319, c19_4_320, c19_4_321, c19_4_322, c19_4_323, c19_4_324, c19_4_325, c19_4_326, c19_4_327, c19_4_328, c19_4_329, c19_4_330, c19_4_331, c19_4_332, c19_4_333, c19_4_334, c19_4_335, c19_4_336, c19_4_337, c19_4_338, c19_4_339, c19_4_340, c19_4_341, c19_4_342, c19_4_343, c19_4_344, c19_4_345, c19_4_346, c19_4_347, c19_4_348, c19_4_349, c19_4_350, c19_4_351, c19_4_352, c19_4_353, c19_4_354, c19_4_355, c19_4_356, c19_4_357, c19_4_358, c19_4_359, c19_4_360, c19_4_361, c19_4_362, c19_4_363, c19_4_364, c19_4_365, c19_4_366, c19_4_367, c19_4_368, c19_4_369, c19_4_370, c19_4_371, c19_4_372, c19_4_373, c19_4_374, c19_4_375, c19_4_376, c19_4_377, c19_4_378, c19_4_379, c19_4_380, c19_4_381, c19_4_382, c19_4_383, c19_4_384, c19_4_385, c19_4_386, c19_4_387, c19_4_388, c19_4_389, c19_4_390, c19_4_391, c19_4_392, c19_4_393, c19_4_394, c19_4_395, c19_4_396, c19_4_397, c19_4_398, c19_4_399, c19_4_400, c19_4_401, c19_4_402, c19_4_403, c19_4_404, c19_4_405, c19_4_406, c19_4_407, c19_4_408, c19_4_409, c19_4_410, c19_4_411, c19_4_412, c19_4_413, c19_4_414, c19_4_415, c19_4_416, c19_4_417, c19_4_418, c19_4_419, c19_4_420, c19_4_421, c19_4_422, c19_4_423, c19_4_424, c19_4_425, c19_4_426, c19_4_427, c19_4_428, c19_4_429, c19_4_430, c19_4_431, c19_4_432, c19_4_433, c19_4_434, c19_4_435, c19_4_436, c19_4_437, c19_4_438, c19_4_439, c19_4_440, c19_4_441, c19_4_442, c19_4_443, c19_4_444, c19_4_445, c19_4_446, c19_4_447, c19_4_448, c19_4_449, c19_4_450, c19_4_451, c19_4_452, c19_4_453, c19_4_454, c19_4_455, c19_4_456, c19_4_457, c19_4_458, c19_4_459, c19_4_460, c19_4_461, c19_4_462, c19_4_463, c19_4_464, c19_4_465, c19_4_466, c19_4_467, c19_4_468, c19_4_469, c19_4_470, c19_4_471, c19_4_472, c19_4_473, c19_4_474, c19_4_475, c19_4_476, c19_4_477, c19_4_478, c19_4_479, c19_4_480, c19_4_481, c19_4_482, c19_4_483, c19_4_484, c19_4_485, c19_4_486, c19_4_487, c19_4_488, c19_4_489, c19_4_490, c19_4_491, c19_4_492, c19_4_493, c19_4_494, c19_4_495, c19_4_496, c19_4_497, c19_4_498, c19_4_499, c19_4_500, c19_4_501, c19_4_502, c19_4_503, c19_4_504, c19_4_505, c19_4_506, c19_4_507, c19_4_508, c19_4_509, c19_4_510, c19_4_511, c19_4_512, c19_4_513, c19_4_514, c19_4_515, c19_4_516, c19_4_517, c19_4_518, c19_4_519, c19_4_520, c19_4_521, c19_4_522, c19_4_523, c19_4_524, c19_4_525, c19_4_526, c19_4_527, c19_4_528, c19_4_529, c19_4_530, c19_4_531, c19_4_532, c19_4_533, c19_4_534, c19_4_535, c19_4_536, c19_4_537, c19_4_538, c19_4_539, c19_4_540, c19_4_541, c19_4_542, c19_4_543, c19_4_544, c19_4_545, c19_4_546, c19_4_547, c19_4_548, c19_4_549, c19_4_550, c19_4_551, c19_4_552, c19_4_553, c19_4_554, c19_4_555, c19_4_556, c19_4_557, c19_4_558, c19_4_559, c19_4_560, c19_4_561, c19_4_562, c19_4_563, c19_4_564, c19_4_565, c19_4_566, c19_4_567, c19_4_568, c19_4_569, c19_4_570, c19_4_571, c19_4_572, c19_4_573, c19_4_574, c19_4_575, c19_5_0, c19_5_1, c19_5_2, c19_5_3, c19_5_4, c19_5_5, c19_5_6, c19_5_7, c19_5_8, c19_5_9, c19_5_10, c19_5_11, c19_5_12, c19_5_13, c19_5_14, c19_5_15, c19_5_16, c19_5_17, c19_5_18, c19_5_19, c19_5_20, c19_5_21, c19_5_22, c19_5_23, c19_5_24, c19_5_25, c19_5_26, c19_5_27, c19_5_28, c19_5_29, c19_5_30, c19_5_31, c19_5_32, c19_5_33, c19_5_34, c19_5_35, c19_6_0, c19_6_1, c19_6_2, c19_6_3, c19_6_4, c19_7_0, c19_7_1, c19_7_2, c19_7_3, c19_7_4, c19_7_5, c19_7_6, c19_7_7, c19_7_8, c19_7_9, c19_7_10, c19_7_11, c19_7_12, c19_7_13, c19_7_14, c19_7_15, c19_7_16, c19_7_17, c19_7_18, c19_7_19, c19_7_20, c19_7_21, c19_7_22, c19_7_23, c19_7_24, c19_7_25, c19_7_26, c19_7_27, c19_7_28, c19_7_29, c19_7_30, c19_7_31, c19_7_32, c19_7_33, c19_7_34, c19_7_35, c19_7_36, c19_7_37, c19_7_38, c19_7_39, c19_7_40, c19_7_41, c19_7_42, c19_7_43, c19_7_44, c19_7_45, c19_7_46, c19_7_47, c19_7_48, c19_7_49, c19_7_50, c19_7_51, c19_7_52, c19_7_53, c19_7_54, c19_7_55, c19_7_56, c19_7_57, c19_7_58, c19_7_59, c19_7_60, c19_7_61, c19_7_62, c19_7_63, c19_7_64, c19_7_65, c19_7_66, c19_7_67, c19_7_68, c19_7_69, c19_7_70, c19_7_71, c19_7_72, c19_7_73, c19_7_74, c19_7_75, c19_7_76, c19_7_77, c19_7_78, c19_7_79, c19_7_80, c19_7_81, c19_7_82, c19_7_83, c19_7_84, c19_7_85, c19_7_86, c19_7_87, c19_7_88, c19_7_89, c19_7_90, c19_7_91, c19_7_92, c19_7_93, c19_7_94, c19_7_95, c19_8_0, c19_8_1, c19_9_0, c19_9_1, c19_9_2, c19_9_3, c19_9_4, c19_9_5, c19_9_6, c19_9_7, c19_9_8, c19_9_9, c19_9_10, c19_9_11, c19_9_12, c19_9_13, c19_9_14, c19_9_15, c19_9_16, c19_9_17, c19_9_18, c19_9_19, c19_9_20, c19_9_21, c19_9_22, c19_9_23, c19_9_24, c19_9_25, c19_9_26, c19_9_27, c19_9_28, c19_9_29, c19_9_30, c19_9_31, c19_9_32, c19_9_33, c19_9_34, c19_9_35, c19_9_36, c19_9_37, c19_9_38, c19_9_39, c19_9_40, c19_9_41, c19_9_42, c19_9_43, c19_9_44, c19_9_45, c19_9_46, c19_9_47, c19_10_0, c19_10_1, c19_10_2, c19_10_3, c19_10_4, c19_10_5, c19_10_6, c19_10_7, c19_11_0, c19_11_1, c19_11_2, c19_12_0, c19_12_1, c19_12_2, c19_12_3, c19_12_4, c19_12_5, c19_12_6, c19_12_7, c19_12_8, c19_12_9, c19_12_10, c19_12_11, c19_12_12, c19_12_13, c19_12_14, c19_12_15, c19_12_16, c19_12_17, c19_12_18, c19_12_19, c19_12_20, c19_12_21, c19_12_22, c19_12_23, c19_12_24, c19_12_25, c19_12_26, c19_12_27, c19_12_28, c19_12_29, c19_12_30, c19_12_31, c19_12_32, c19_12_33, c19_12_34, c19_12_35, c19_12_36, c19_12_37, c19_12_38, c19_12_39, c19_12_40, c19_12_41, c19_12_42, c19_12_43, c19_12_44, c19_12_45, c19_12_46, c19_12_47, c19_12_48, c19_12_49, c19_12_50, c19_12_51, c19_12_52, c19_12_53, c19_12_54, c19_12_55, c19_12_56, c19_12_57, c19_12_58, c19_12_59, c19_12_60, c19_12_61, c19_12_62, c19_12_63, c19_12_64, c19_12_65, c19_12_66, c19_12_67, c19_12_68, c19_12_69, c19_12_70, c19_12_71, c19_12_72, c19_12_73, c19_12_74, c19_12_75, c19_12_76, c19_12_77, c19_12_78, c19_12_79, c19_12_80, c19_12_81, c19_12_82, c19_12_83, c19_12_84, c19_12_85, c19_12_86, c19_12_87, c19_12_88, c19_12_89, c19_12_90, c19_12_91, c19_12_92, c19_12_93, c19_12_94, c19_12_95, c19_12_96, c19_12_97, c19_12_98, c19_12_99, c19_12_100, c19_12_101, c19_12_102, c19_12_103, c19_12_104, c19_12_105, c19_12_106, c19_12_107, c19_12_108, c19_12_109, c19_12_110, c19_12_111, c19_12_112, c19_12_113, c19_12_114, c19_12_115, c19_12_116, c19_12_117, c19_12_118, c19_12_119, c19_12_120, c19_12_121, c19_12_122, c19_12_123, c19_12_124, c19_12_125, c19_12_126, c19_12_127, c19_12_128, c19_12_129, c19_12_130, c19_12_131, c19_12_132, c19_12_133, c19_12_134, c19_12_135, c19_12_136, c19_12_137, c19_12_138, c19_12_139, c19_12_140, c19_12_141, c19_12_142, c19_12_143, c19_12_144, c19_12_145, c19_12_146, c19_12_147, c19_12_148, c19_12_149, c19_12_150, c19_12_151, c19_12_152, c19_12_153, c19_12_154, c19_12_155, c19_12_156, c19_12_157, c19_12_158, c19_12_159, c19_12_160, c19_12_161, c19_12_162, c19_12_163, c19_12_164, c19_12_165, c19_12_166, c19_12_167, c19_12_168, c19_12_169, c19_12_170, c19_12_171, c19_12_172, c19_12_173, c19_12_174, c19_12_175, c19_12_176, c19_12_177, c19_12_178, c19_12_179, c19_12_180, c19_12_181, c19_12_182, c19_12_183, c19_12_184, c19_12_185, c19_12_186, c19_12_187, c19_12_188, c19_12_189, c19_12_190, c19_12_191, c19_13_0, c19_13_1, c19_13_2, c19_13_3, c19_13_4, c19_13_5, c19_14_0, c19_14_1, c19_14_2, c19_14_3, c19_14_4, c19_14_5, c19_14_6, c19_14_7, c19_14_8, c19_14_9, c19_14_10, c19_14_11, c19_14_12, c19_14_13, c19_14_14, c19_14_15, c19_14_16, c19_14_17, c19_14_18, c19_14_19, c19_14_20, c19_14_21, c19_14_22, c19_14_23, c19_15_0, c19_15_1, c19_15_2, c19_16_0, c19_16_1, c19_16_2, c19_16_3, c19_16_4, c19_16_5, c19_17_0, c19_17_1, c19_17_2, c19_17_3, c19_17_4, c19_17_5, c19_17_6, c19_17_7, c19_17_8, c19_17_9, c19_17_10, c19_17_11, c19_17_12, c19_17_13, c19_17_14, c19_17_15, c19_18_0, c19_18_1, c19_18_2, c19_18_3, c19_18_4, c19_18_5, c19_18_6, c19_18_7, c19_18_8, c19_18_9, c19_18_10, c19_18_11, c19_18_12, c19_18_13, c19_18_14, c19_18_15, c19_18_16, c19_18_17, c19_18_18, c19_18_19, c19_18_20, c19_18_21, c19_18_22, c19_18_23, c19_18_24, c19_18_25, c19_18_26, c19_18_27, c19_18_28, c19_18_29, c19_18_30, c19_18_31, c19_18_32, c19_18_33, c19_18_34, c19_18_35, c19_18_36, c19_18_37, c19_18_38, c19_18_39, c19_18_40, c19_18_41, c19_18_42, c19_18_43, c19_18_44, c19_18_45, c19_18_46, c19_18_47, c19_18_48, c19_18_49, c19_18_50, c19_18_51, c19_18_52, c19_18_53, c19_18_54, c19_18_55, c19_18_56, c19_18_57, c19_18_58, c19_18_59, c19_18_60, c19_18_61, c19_18_62, c19_18_63, c19_18_64, c19_18_65, c19_18_66, c19_18_67, c19_18_68, c19_18_69, c19_18_70, c19_18_71, c20_0_0, c20_0_1, c20_0_2, c20_1_0, c20_1_1, c20_1_2, c20_2_0, c20_2_1, c20_2_2, c20_3_0, c20_3_1, c20_3_2, c20_4_0, c20_4_1, c20_4_2, c20_5_0, c20_5_1, c20_5_2, c20_6_0, c20_6_1, c20_6_2, c20_7_0, c20_7_1, c20_7_2, c20_8_0, c20_8_1, c20_8_2, c20_8_3, c20_8_4, c20_8_5, c20_9_0, c20_9_1, c20_9_2, c20_10_0, c20_10_1, c20_11_0, c20_11_1, c20_11_2, c20_12_0, c20_12_1, c20_12_2, c20_12_3, c20_12_4, c20_13_0, c20_13_1, c20_14_0, c20_14_1, c20_14_2, c20_14_3, c20_14_4, c20_14_5, c20_15_0, c20_15_1, c20_15_2, c20_16_0, c20_16_1, c20_16_2, c20_17_0, c20_17_1, c20_17_2, c20_18_0, c20_18_1, c20_18_2, c20_19_0, c20_19_1, c20_19_2, c20_20_0, c20_20_1, c20_21_0, c20_21_1, c20_21_2, c20_22_0, c20_22_1, c20_22_2, c20_23_0, c20_23_1, c20_23_2, c20_24_0, c20_24_1, c20_24_2, c20_25_0, c20_25_1, c20_25_2, c20_26_0, c20_26_1, c20_26_2, c20_27_0, c20_27_1, c20_27_2, c20_27_3, c20_28_0, c20_28_1, c20_28_2, c20_28_3, c20_29_0, c20_29_1, c20_29_2, c20_30_0, c20_30_1, c20_30_2, c20_31_0, c20_31_1, c20_31_2, c20_32_0, c20_32_1, c20_32_2, c20_33_0, c20_33_1, c20_33_2, c20_33_3, c20_33_4, c20_34_0, c20_34_1, c20_34_2, c20_35_0, c20_35_1, c20_35_2, c20_36_0, c20_36_1, c20_36_2, c20_36_3, c20_37_0, c20_37_1, c20_37_2, c20_37_3, c20_37_4, c20_38_0, c20_38_1, c20_38_2, c20_39_0, c20_39_1, c20_39_2, c20_40_0, c20_40_1, c20_40_2, c20_41_0, c20_41_1, c20_41_2, c20_41_3, c20_42_0, c20_42_1, c20_42_2, c20_42_3, c20_43_0, c20_43_1, c20_43_2, c20_43_3, c20_43_4, c20_44_0, c20_44_1, c20_50_0, c20_50_1, c20_50_2, c20_50_3, c20_51_0, c20_51_1, c20_51_2, c20_51_3, c20_52_0, c20_52_1, c20_52_2, c20_52_3, c20_53_0, c20_53_1, c20_53_2, c20_53_3, c20_54_0, c20_54_1, c20_54_2, c20_54_3, c20_55_0, c20_55_1, c20_55_2, c20_55_3, c20_55_4, c20_56_0, c20_56_1, c20_56_2, c20_57_0, c20_57_1, c20_57_2, c20_57_3, c20_57_4, c20_58_0, c20_58_1, c20_58_2, c20_58_3, c20_59_0, c20_59_1, c20_59_2, c20_59_3, c20_60_0, c20_60_1, c20_60_2, c20_60_3, c20_60_4, c20_60_5, c20_61_0, c20_61_1, c20_62_0, c20_62_1, c20_63_0, c20_63_1, c20_63_2, c20_63_3, c20_63_4, c20_63_5, c20_64_0, c20_64_1, c20_64_2, c20_64_3, c20_64_4, c20_64_5, c20_65_0, c20_65_1, c20_65_2, c20_65_3, c20_65_4, c20_65_5, c20_66_0, c20_66_1, c20_66_2, c20_66_3, c20_66_4, c20_66_5, c20_67_0, c20_67_1, c20_67_2, c20_67_3, c20_68_0, c20_68_1, c20_68_2, c20_68_3, c20_68_4, c20_68_5, c20_68_6, c20_68_7, c20_68_8, c20_68_9, c20_69_0, c20_69_1, c20_s0_0, c20_s0_1, c20_s0_2, c20_s1_0, c20_s1_1, c20_s1_2, c18_t1_0, c18_t1_0r, c18_t1_0t, c18_t1_0i, c18_t1_0p, c18_t1_0v, c18_t1_0y, c18_t1_0q, c18_t1_1, c18_t1_1r, c18_t1_1t, c18_t1_1i, c18_t1_1p, c18_t1_1v, c18_t1_1y, c18_t1_1q, c18_t1_2, c18_t1_2r, c18_t1_2t, c18_t1_2i, c18_t1_2p, c18_t1_2v, c18_t1_2y, c18_t1_2q, c18_t1_3, c18_t1_3r, c18_t1_3t, c18_t1_3i, c18_t1_3p, c18_t1_3v, c18_t1_3y, c18_t1_3q, c18_t1_4, c18_t1_4r, c18_t1_4t, c18_t1_4i, c18_t1_4p, c18_t1_4v, c18_t1_4y, c18_t1_4q, c18_t1_5, c18_t1_5r, c18_t1_5t, c18_t1_5i, c18_t1_5p, c18_t1_5v, c18_t1_5y, c18_t1_5q, c18_t1_6, c18_t1_6r, c18_t1_6t, c18_t1_6i, c18_t1_6p, c18_t1_6v, c18_t1_6y, c18_t1_6q, c18_t1_7, c18_t1_7r, c18_t1_7t, c18_t1_7i, c18_t1_7p, c18_t1_7v, c18_t1_7y, c18_t1_7q, c18_t1_8, c18_t1_8r, c18_t1_8t, c18_t1_8i, c18_t1_8p, c18_t1_8v, c18_t1_8y, c18_t1_8q, c18_t1_9, c18_t1_9r, c18_t1_9t, c18_t1_9i, c18_t1_9p, c18_t1_9v, c18_t1_9y, c18_t1_9q, c18_t1_10, c18_t1_10r, c18_t1_10t, c18_t1_10i, c18_t1_10p, c18_t1_10v, c18_t1_10y, c18_t1_10q, c18_t1_11, c18_t1_11r, c18_t1_11t, c18_t1_11i, c18_t1_11p, c18_t1_11v, c18_t1_11y, c18_t1_11q, c18_t1_12, c18_t1_12r, c18_t1_12t, c18_t1_12i, c18_t1_12p, c18_t1_12v, c18_t1_12y, c18_t1_12q, c18_t1_13, c18_t1_13r, c18_t1_13t, c18_t1_13i, c18_t1_13p, c18_t1_13v, c18_t1_13y, c18_t1_13q, c18_t2_0, c18_t2_0r, c18_t2_0t, c18_t2_0i, c18_t2_0p, c18_t2_0v, c18_t2_0y, c18_t2_0q, c18_t2_1, c18_t2_1r, c18_t2_1t, c18_t2_1i, c18_t2_1p, c18_t2_1v, c18_t2_1y, c18_t2_1q, c18_t2_2, c18_t2_2r, c18_t2_2t, c18_t2_2i, c18_t2_2p, c18_t2_2v, c18_t2_2y, c18_t2_2q, c18_t2_3, c18_t2_3r, c18_t2_3t, c18_t2_3i, c18_t2_3p, c18_t2_3v, c18_t2_3y, c18_t2_3q, c18_t2_4, c18_t2_4r, c18_t2_4t, c18_t2_4i, c18_t2_4p, c18_t2_4v, c18_t2_4y, c18_t2_4q, c18_t2_5, c18_t2_5r, c18_t2_5t, c18_t2_5i, c18_t2_5p, c18_t2_5v, c18_t2_5y, c18_t2_5q, c18_t2_6, c18_t2_6r, c18_t2_6t, c18_t2_6i, c18_t2_6p, c18_t2_6v, c18_t2_6y, c18_t2_6q, c18_t2_7, c18_t2_7r, c18_t2_7t, c18_t2_7i, c18_t2_7p, c18_t2_7v, c18_t2_7y, c18_t2_7q, c18_t2_8, c18_t2_8r, c18_t2_8t, c18_t2_8i, c18_t2_8p, c18_t2_8v, c18_t2_8y, c18_t2_8q, c18_t2_9, c18_t2_9r, c18_t2_9t, c18_t2_9i, c18_t2_9p, c18_t2_9v, c18_t2_9y, c18_t2_9q, c18_t2_10, c18_t2_10r, c18_t2_10t, c18_t2_10i, c18_t2_10p, c18_t2_10v, c18_t2_10y, c18_t2_10q, c18_t2_11, c18_t2_11r, c18_t2_11t, c18_t2_11i, c18_t2_11p, c18_t2_11v, c18_t2_11y, c18_t2_11q, c18_t2_12, c18_t2_12r, c18_t2_12t, c18_t2_12i, c18_t2_12p, c18_t2_12v, c18_t2_12y, c18_t2_12q, c18_t2_13, c18_t2_13r, c18_t2_13t, c18_t2_13i, c18_t2_13p, c18_t2_13v, c18_t2_13y, c18_t2_13q, c18_t3_0, c18_t3_0r, c18_t3_0t, c18_t3_0i, c18_t3_0p, c18_t3_0v, c18_t3_0y, c18_t3_0q, c18_t3_1, c18_t3_1r, c18_t3_1t, c18_t3_1i, c18_t3_1p, c18_t3_1v, c18_t3_1y, c18_t3_1q, c18_t3_2, c18_t3_2r, c18_t3_2t, c18_t3_2i, c18_t3_2p, c18_t3_2v, c18_t3_2y, c18_t3_2q, c18_t3_3, c18_t3_3r, c18_t3_3t, c18_t3_3i, c18_t3_3p, c18_t3_3v, c18_t3_3y, c18_t3_3q, c18_t3_4, c18_t3_4r, c18_t3_4t, c18_t3_4i, c18_t3_4p, c18_t3_4v, c18_t3_4y, c18_t3_4q, c18_t3_5, c18_t3_5r, c18_t3_5t, c18_t3_5i, c18_t3_5p, c18_t3_5v, c18_t3_5y, c18_t3_5q, c18_t3_6, c18_t3_6r, c18_t3_6t, c18_t3_6i, c18_t3_6p, c18_t3_6v, c18_t3_6y, c18_t3_6q, c18_t3_7, c18_t3_7r, c18_t3_7t, c18_t3_7i, c18_t3_7p, c18_t3_7v, c18_t3_7y, c18_t3_7q, c18_t3_8, c18_t3_8r, c18_t3_8t, c18_t3_8i, c18_t3_8p, c18_t3_8v, c18_t3_8y, c18_t3_8q, c18_t3_9, c18_t3_9r, c18_t3_9t, c18_t3_9i, c18_t3_9p, c18_t3_9v, c18_t3_9y, c18_t3_9q, c18_t3_10, c18_t3_10r, c18_t3_10t, c18_t3_10i, c18_t3_10p, c18_t3_10v, c18_t3_10y, c18_t3_10q, c18_t3_11, c18_t3_11r, c18_t3_11t, c18_t3_11i, c18_t3_11p, c18_t3_11v, c18_t3_11y, c18_t3_11q, c18_t3_12, c18_t3_12r, c18_t3_12t, c18_t3_12i, c18_t3_12p, c18_t3_12v, c18_t3_12y, c18_t3_12q, c18_t3_13, c18_t3_13r, c18_t3_13t, c18_t3_13i, c18_t3_13p, c18_t3_13v, c18_t3_13y, c18_t3_13q, c18_t4_0, c18_t4_0r, c18_t4_0t, c18_t4_0i, c18_t4_0p, c18_t4_0v, c18_t4_0y, c18_t4_0q, c18_t4_1, c18_t4_1r, c18_t4_1t, c18_t4_1i, c18_t4_1p, c18_t4_1v, c18_t4_1y, c18_t4_1q, c18_t4_2, c18_t4_2r, c18_t4_2t, c18_t4_2i, c18_t4_2p, c18_t4_2v, c18_t4_2y, c18_t4_2q, c18_t4_3, c18_t4_3r, c18_t4_3t, c18_t4_3i, c18_t4_3p, c18_t4_3v, c18_t4_3y, c18_t4_3q, c18_t4_4, c18_t4_4r, c18_t4_4t, c18_t4_4i, c18_t4_4p, c18_t4_4v, c18_t4_4y, c18_t4_4q, c18_t4_5, c18_t4_5r, c18_t4_5t, c18_t4_5i, c18_t4_5p, c18_t4_5v, c18_t4_5y, c18_t4_5q, c18_t4_6, c18_t4_6r, c18_t4_6t, c18_t4_6i, c18_t4_6p, c18_t4_6v, c18_t4_6y, c18_t4_6q, c18_t4_7, c18_t4_7r, c18_t4_7t, c18_t4_7i, c18_t4_7p, c18_t4_7v, c18_t4_7y, c18_t4_7q, c18_t4_8, c18_t4_8r, c18_t4_8t, c18_t4_8i, c18_t4_8p, c18_t4_8v, c18_t4_8y, c18_t4_8q, c18_t4_9, c18_t4_9r, c18_t4_9t, c18_t4_9i, c18_t4_9p, c18_t4_9v, c18_t4_9y, c18_t4_9q, c18_t4_10, c18_t4_10r, c18_t4_10t, c18_t4_10i, c18_t4_10p, c18_t4_10v, c18_t4_10y, c18_t4_10q, c18_t4_11, c18_t4_11r, c18_t4_11t, c18_t4_11i, c18_t4_11p, c18_t4_11v, c18_t4_11y, c18_t4_11q, c18_t4_12, c18_t4_12r, c18_t4_12t, c18_t4_12i, c18_t4_12p, c18_t4_12v, c18_t4_12y, c18_t4_12q, c18_t4_13, c18_t4_13r, c18_t4_13t, c18_t4_13i, c18_t4_13p, c18_t4_13v, c18_t4_13y, c18_t4_13q, c18_t5_0, c18_t5_0r, c18_t5_0t, c18_t5_0i, c18_t5_0p, c18_t5_0v, c18_t5_0y, c18_t5_0q, c18_t5_1, c18_t5_1r, c18_t5_1t, c18_t5_1i, c18_t5_1p, c18_t5_1v, c18_t5_1y, c18_t5_1q, c18_t5_2, c18_t5_2r, c18_t5_2t, c18_t5_2i, c18_t5_2p, c18_t5_2v, c18_t5_2y, c18_t5_2q, c18_t5_3, c18_t5_3r, c18_t5_3t, c18_t5_3i, c18_t5_3p, c18_t5_3v, c18_t5_3y, c18_t5_3q, c18_t5_4, c18_t5_4r, c18_t5_4t, c18_t5_4i, c18_t5_4p, c18_t5_4v, c18_t5_4y, c18_t5_4q, c18_t5_5, c18_t5_5r, c18_t5_5t, c18_t5_5i, c18_t5_5p, c18_t5_5v, c18_t5_5y, c18_t5_5q, c18_t5_6, c18_t5_6r, c18_t5_6t, c18_t5_6i, c18_t5_6p, c18_t5_6v, c18_t5_6y, c18_t5_6q, c18_t5_7, c18_t5_7r, c18_t5_7t, c18_t5_7i, c18_t5_7p, c18_t5_7v, c18_t5_7y, c18_t5_7q, c18_t5_8, c18_t5_8r, c18_t5_8t, c18_t5_8i, c18_t5_8p, c18_t5_8v, c18_t5_8y, c18_t5_8q, c18_t5_9, c18_t5_9r, c18_t5_9t, c18_t5_9i, c18_t5_9p, c18_t5_9v, c18_t5_9y, c18_t5_9q, c18_t5_10, c18_t5_10r, c18_t5_10t, c18_t5_10i, c18_t5_10p, c18_t5_10v, c18_t5_10y, c18_t5_10q, c18_t5_11, c18_t5_11r, c18_t5_11t, c18_t5_11i, c18_t5_11p, c18_t5_11v, c18_t5_11y, c18_t5_11q, c18_t5_12, c18_t5_12r, c18_t5_12t, c18_t5_12i, c18_t5_12p, c18_t5_12v, c18_t5_12y, c18_t5_12q, c18_t5_13, c18_t5_13r, c18_t5_13t, c18_t5_13i, c18_t5_13p, c18_t5_13v, c18_t5_13y, c18_t5_13q);
