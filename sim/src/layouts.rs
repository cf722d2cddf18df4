// Generated by tools/mklayouts.py: records with assorted field layouts.

rec_struct!(L0, RefL0, RefMutL0, "struct L0", 9,
    (f0, set_f0, u8, 0, 1),
    (f1, set_f1, u64, 1, 64),
    (f2, set_f2, u8, 65, 7));

rec_struct!(L1, RefL1, RefMutL1, "struct L1", 21,
    (f0, set_f0, u16, 0, 15),
    (f1, set_f1, u64, 15, 60),
    (f2, set_f2, i32, 75, 29),
    (f3, set_f3, u64, 104, 64));

rec_struct!(L2, RefL2, RefMutL2, "struct L2", 25,
    (f0, set_f0, u64, 0, 64),
    (f1, set_f1, u64, 68, 64),
    (f2, set_f2, i64, 132, 63));

rec_struct!(L3, RefL3, RefMutL3, "struct L3", 15,
    (f0, set_f0, u16, 13, 1),
    (f1, set_f1, u64, 19, 60),
    (f2, set_f2, i16, 79, 2),
    (f3, set_f3, i32, 86, 32));

rec_struct!(L4, RefL4, RefMutL4, "struct L4", 16,
    (f0, set_f0, u64, 0, 63),
    (f1, set_f1, i64, 63, 62));

rec_struct!(L5, RefL5, RefMutL5, "struct L5", 16,
    (f0, set_f0, u16, 1, 16),
    (f1, set_f1, u64, 28, 64),
    (f2, set_f2, i64, 93, 32));

rec_struct!(L6, RefL6, RefMutL6, "struct L6", 11,
    (f0, set_f0, i32, 0, 19),
    (f1, set_f1, u64, 19, 60),
    (f2, set_f2, i16, 80, 7));

rec_struct!(L7, RefL7, RefMutL7, "struct L7", 26,
    (f0, set_f0, i64, 3, 62),
    (f1, set_f1, u64, 66, 57),
    (f2, set_f2, i8, 128, 8),
    (f3, set_f3, i64, 136, 58),
    (f4, set_f4, i32, 199, 8));

rec_struct!(L8, RefL8, RefMutL8, "struct L8", 19,
    (f0, set_f0, u64, 81, 57),
    (f1, set_f1, u32, 138, 8),
    (f2, set_f2, i64, 13, 64),
    (f3, set_f3, u16, 77, 4));

rec_struct!(L9, RefL9, RefMutL9, "struct L9", 20,
    (f0, set_f0, i64, 13, 61),
    (f1, set_f1, i16, 79, 16),
    (f2, set_f2, i64, 95, 62));

rec_struct!(L10, RefL10, RefMutL10, "struct L10", 3,
    (f0, set_f0, u16, 0, 16),
    (f1, set_f1, i16, 16, 2));

rec_struct!(L11, RefL11, RefMutL11, "struct L11", 4,
    (f0, set_f0, i8, 24, 8),
    (f1, set_f1, i32, 3, 16));

rec_struct!(L12, RefL12, RefMutL12, "struct L12", 24,
    (f0, set_f0, i64, 3, 58),
    (f1, set_f1, i8, 66, 8),
    (f2, set_f2, i16, 85, 15),
    (f3, set_f3, u32, 111, 15),
    (f4, set_f4, i64, 126, 62));

rec_struct!(L13, RefL13, RefMutL13, "struct L13", 18,
    (f0, set_f0, u64, 0, 62),
    (f1, set_f1, i64, 67, 15),
    (f2, set_f2, i64, 82, 57));

rec_struct!(L14, RefL14, RefMutL14, "struct L14", 7,
    (f0, set_f0, i64, 1, 33),
    (f1, set_f1, u8, 34, 8),
    (f2, set_f2, i16, 42, 8));

rec_struct!(L15, RefL15, RefMutL15, "struct L15", 19,
    (f0, set_f0, i16, 1, 2),
    (f1, set_f1, u32, 3, 17),
    (f2, set_f2, i64, 25, 53),
    (f3, set_f3, u64, 89, 15),
    (f4, set_f4, i64, 104, 33),
    (f5, set_f5, u64, 142, 8));

rec_struct!(L16, RefL16, RefMutL16, "struct L16", 3,
    (f0, set_f0, u32, 13, 9));

rec_struct!(L17, RefL17, RefMutL17, "struct L17", 33,
    (f0, set_f0, i16, 8, 2),
    (f1, set_f1, i64, 10, 61),
    (f2, set_f2, u32, 72, 16),
    (f3, set_f3, i64, 88, 64),
    (f4, set_f4, u64, 152, 32),
    (f5, set_f5, u32, 184, 17),
    (f6, set_f6, u64, 201, 60));

rec_struct!(L18, RefL18, RefMutL18, "struct L18", 16,
    (f0, set_f0, i64, 8, 33),
    (f1, set_f1, i64, 41, 64),
    (f2, set_f2, u32, 105, 17));

rec_struct!(L19, RefL19, RefMutL19, "struct L19", 16,
    (f0, set_f0, i8, 0, 8),
    (f1, set_f1, i64, 8, 57),
    (f2, set_f2, u64, 65, 62));

sim_archive!(Lay, LayBuilder, "archive Lay { layouts; }";
    (s0, set_s0, L0, "s0 : L0", true),
    (s4, set_s4, L4, "s4 : L4", true),
    (s8, set_s8, L8, "s8 : L8", true),
    (s12, set_s12, L12, "s12 : L12", true),
    (s16, set_s16, L16, "s16 : L16", true);
    (v0, set_v0, start_v0, L0, "v0 : vector< L0 >", true),
    (v1, set_v1, start_v1, L1, "v1 : vector< L1 >", true),
    (v2, set_v2, start_v2, L2, "v2 : vector< L2 >", true),
    (v3, set_v3, start_v3, L3, "v3 : vector< L3 >", true),
    (v4, set_v4, start_v4, L4, "v4 : vector< L4 >", true),
    (v5, set_v5, start_v5, L5, "v5 : vector< L5 >", true),
    (v6, set_v6, start_v6, L6, "v6 : vector< L6 >", true),
    (v7, set_v7, start_v7, L7, "v7 : vector< L7 >", true),
    (v8, set_v8, start_v8, L8, "v8 : vector< L8 >", true),
    (v9, set_v9, start_v9, L9, "v9 : vector< L9 >", true),
    (v10, set_v10, start_v10, L10, "v10 : vector< L10 >", true),
    (v11, set_v11, start_v11, L11, "v11 : vector< L11 >", true),
    (v12, set_v12, start_v12, L12, "v12 : vector< L12 >", true),
    (v13, set_v13, start_v13, L13, "v13 : vector< L13 >", true),
    (v14, set_v14, start_v14, L14, "v14 : vector< L14 >", true),
    (v15, set_v15, start_v15, L15, "v15 : vector< L15 >", true),
    (v16, set_v16, start_v16, L16, "v16 : vector< L16 >", true),
    (v17, set_v17, start_v17, L17, "v17 : vector< L17 >", true),
    (v18, set_v18, start_v18, L18, "v18 : vector< L18 >", true),
    (v19, set_v19, start_v19, L19, "v19 : vector< L19 >", true);
    (m0, start_m0, LV, "m0 : multivector", m0_index, Idx33, true);
    ;
);

rec_variant!(LV, RefLV, BuilderLV, Idx33, 1 => (L0, add_l0), 4 => (L1, add_l1), 7 => (L2, add_l2), 10 => (L3, add_l3), 13 => (L4, add_l4), 16 => (L5, add_l5), 19 => (L6, add_l6), 22 => (L7, add_l7), 25 => (L8, add_l8), 28 => (L9, add_l9), 31 => (L10, add_l10), 34 => (L11, add_l11), 37 => (L12, add_l12), 40 => (L13, add_l13), 43 => (L14, add_l14), 46 => (L15, add_l15), 49 => (L16, add_l16), 52 => (L17, add_l17), 55 => (L18, add_l18), 58 => (L19, add_l19));

rec_struct!(W0, RefW0, RefMutW0, "struct W0", 185,
    (f0, set_f0, i64, 1419, 38),
    (f1, set_f1, i32, 0, 19),
    (f2, set_f2, i16, 864, 14),
    (f3, set_f3, i64, 534, 44),
    (f4, set_f4, u64, 486, 37),
    (f5, set_f5, u64, 118, 61),
    (f6, set_f6, i32, 331, 22),
    (f7, set_f7, i32, 578, 30),
    (f8, set_f8, u64, 1343, 50),
    (f9, set_f9, u64, 957, 34),
    (f10, set_f10, i64, 1150, 37),
    (f11, set_f11, u64, 991, 41),
    (f12, set_f12, i16, 1242, 10),
    (f13, set_f13, i64, 814, 50),
    (f14, set_f14, i64, 364, 36),
    (f15, set_f15, u32, 180, 21),
    (f16, set_f16, u64, 1076, 54),
    (f17, set_f17, u16, 1130, 11),
    (f18, set_f18, u64, 19, 48),
    (f19, set_f19, i8, 700, 6),
    (f20, set_f20, u64, 1393, 25),
    (f21, set_f21, u8, 1032, 1),
    (f22, set_f22, i16, 523, 11),
    (f23, set_f23, u16, 353, 11),
    (f24, set_f24, u64, 1252, 61),
    (f25, set_f25, bool, 1418, 1),
    (f26, set_f26, u32, 1457, 21),
    (f27, set_f27, bool, 179, 1),
    (f28, set_f28, i64, 295, 36),
    (f29, set_f29, u64, 613, 41),
    (f30, set_f30, i8, 1338, 5),
    (f31, set_f31, i64, 1187, 55),
    (f32, set_f32, i64, 902, 55),
    (f33, set_f33, u64, 706, 48),
    (f34, set_f34, u32, 273, 22),
    (f35, set_f35, i32, 1313, 23),
    (f36, set_f36, i64, 437, 20),
    (f37, set_f37, u64, 754, 60),
    (f38, set_f38, u64, 400, 37),
    (f39, set_f39, u32, 457, 29),
    (f40, set_f40, u32, 878, 24),
    (f41, set_f41, u32, 201, 26),
    (f42, set_f42, i64, 654, 46),
    (f43, set_f43, u64, 227, 46),
    (f44, set_f44, i64, 67, 50),
    (f45, set_f45, u16, 1141, 9),
    (f46, set_f46, i32, 1036, 17),
    (f47, set_f47, i32, 1053, 23));

rec_struct!(W1, RefW1, RefMutW1, "struct W1", 208,
    (f0, set_f0, i64, 7, 47),
    (f1, set_f1, u64, 54, 49),
    (f2, set_f2, i64, 103, 42),
    (f3, set_f3, u64, 145, 47),
    (f4, set_f4, i32, 192, 24),
    (f5, set_f5, i64, 216, 34),
    (f6, set_f6, u16, 250, 15),
    (f7, set_f7, u16, 265, 13),
    (f8, set_f8, u32, 285, 30),
    (f9, set_f9, u32, 315, 31),
    (f10, set_f10, u64, 346, 56),
    (f11, set_f11, i64, 402, 37),
    (f12, set_f12, u16, 439, 12),
    (f13, set_f13, i64, 451, 24),
    (f14, set_f14, u64, 475, 59),
    (f15, set_f15, u64, 534, 40),
    (f16, set_f16, i64, 574, 42),
    (f17, set_f17, u32, 616, 9),
    (f18, set_f18, i16, 625, 15),
    (f19, set_f19, u64, 640, 41),
    (f20, set_f20, u64, 681, 58),
    (f21, set_f21, i64, 739, 53),
    (f22, set_f22, u32, 792, 20),
    (f23, set_f23, i32, 812, 27),
    (f24, set_f24, u64, 839, 42),
    (f25, set_f25, i64, 881, 46),
    (f26, set_f26, u64, 927, 61),
    (f27, set_f27, i32, 988, 21),
    (f28, set_f28, u8, 1009, 2),
    (f29, set_f29, i32, 1011, 20),
    (f30, set_f30, i64, 1031, 41),
    (f31, set_f31, u16, 1072, 13),
    (f32, set_f32, u64, 1085, 64),
    (f33, set_f33, u64, 1149, 48),
    (f34, set_f34, u64, 1197, 50),
    (f35, set_f35, u8, 1247, 4),
    (f36, set_f36, i16, 1251, 16),
    (f37, set_f37, i8, 1267, 4),
    (f38, set_f38, u64, 1271, 33),
    (f39, set_f39, i64, 1304, 55),
    (f40, set_f40, i64, 1359, 37),
    (f41, set_f41, u32, 1396, 32),
    (f42, set_f42, i64, 1428, 39),
    (f43, set_f43, u64, 1467, 51),
    (f44, set_f44, i32, 1518, 24),
    (f45, set_f45, u32, 1542, 21),
    (f46, set_f46, u64, 1563, 43),
    (f47, set_f47, u64, 1606, 57));

rec_struct!(W2, RefW2, RefMutW2, "struct W2", 186,
    (f0, set_f0, i64, 714, 38),
    (f1, set_f1, i32, 1466, 9),
    (f2, set_f2, u16, 1456, 10),
    (f3, set_f3, u64, 814, 64),
    (f4, set_f4, u32, 446, 18),
    (f5, set_f5, i64, 392, 54),
    (f6, set_f6, u64, 562, 58),
    (f7, set_f7, u8, 5, 3),
    (f8, set_f8, u64, 1089, 41),
    (f9, set_f9, i32, 767, 17),
    (f10, set_f10, i32, 661, 21),
    (f11, set_f11, i64, 34, 59),
    (f12, set_f12, i64, 1184, 42),
    (f13, set_f13, i16, 1308, 14),
    (f14, set_f14, i64, 93, 35),
    (f15, set_f15, i64, 151, 59),
    (f16, set_f16, i64, 1333, 40),
    (f17, set_f17, i32, 1373, 20),
    (f18, set_f18, i64, 278, 62),
    (f19, set_f19, u8, 893, 4),
    (f20, set_f20, i32, 250, 28),
    (f21, set_f21, u32, 878, 15),
    (f22, set_f22, i64, 1021, 46),
    (f23, set_f23, i32, 128, 23),
    (f24, set_f24, u32, 540, 22),
    (f25, set_f25, bool, 1226, 1),
    (f26, set_f26, u32, 635, 26),
    (f27, set_f27, i16, 1322, 11),
    (f28, set_f28, i16, 620, 15),
    (f29, set_f29, i16, 1393, 12),
    (f30, set_f30, i32, 784, 30),
    (f31, set_f31, u16, 752, 15),
    (f32, set_f32, u64, 900, 64),
    (f33, set_f33, i32, 8, 21),
    (f34, set_f34, i32, 682, 32),
    (f35, set_f35, u32, 464, 18),
    (f36, set_f36, i8, 897, 3),
    (f37, set_f37, u64, 210, 38),
    (f38, set_f38, u64, 1262, 44),
    (f39, set_f39, i64, 340, 52),
    (f40, set_f40, i64, 1405, 51),
    (f41, set_f41, i64, 964, 57),
    (f42, set_f42, u8, 1306, 2),
    (f43, set_f43, u64, 1227, 35),
    (f44, set_f44, i64, 1067, 22),
    (f45, set_f45, u64, 1130, 54),
    (f46, set_f46, i64, 482, 58),
    (f47, set_f47, u16, 1475, 13));

rec_struct!(W3, RefW3, RefMutW3, "struct W3", 183,
    (f0, set_f0, u32, 2, 26),
    (f1, set_f1, u32, 28, 29),
    (f2, set_f2, i64, 57, 35),
    (f3, set_f3, u64, 98, 64),
    (f4, set_f4, u32, 162, 18),
    (f5, set_f5, i8, 180, 3),
    (f6, set_f6, u16, 183, 15),
    (f7, set_f7, i16, 198, 9),
    (f8, set_f8, u16, 207, 10),
    (f9, set_f9, u32, 217, 20),
    (f10, set_f10, u64, 237, 62),
    (f11, set_f11, i64, 306, 60),
    (f12, set_f12, bool, 366, 1),
    (f13, set_f13, i32, 367, 18),
    (f14, set_f14, i64, 385, 37),
    (f15, set_f15, u64, 422, 45),
    (f16, set_f16, i16, 467, 10),
    (f17, set_f17, u8, 477, 5),
    (f18, set_f18, i64, 482, 39),
    (f19, set_f19, u32, 521, 28),
    (f20, set_f20, u64, 549, 53),
    (f21, set_f21, u64, 602, 52),
    (f22, set_f22, i64, 654, 35),
    (f23, set_f23, i64, 689, 39),
    (f24, set_f24, u64, 728, 40),
    (f25, set_f25, u64, 768, 47),
    (f26, set_f26, i32, 815, 20),
    (f27, set_f27, u64, 835, 37),
    (f28, set_f28, i32, 872, 18),
    (f29, set_f29, i16, 890, 16),
    (f30, set_f30, u32, 906, 29),
    (f31, set_f31, u64, 935, 45),
    (f32, set_f32, u32, 980, 23),
    (f33, set_f33, i32, 1003, 27),
    (f34, set_f34, i64, 1030, 54),
    (f35, set_f35, i32, 1089, 29),
    (f36, set_f36, u8, 1118, 8),
    (f37, set_f37, u32, 1129, 11),
    (f38, set_f38, i32, 1145, 18),
    (f39, set_f39, i8, 1163, 6),
    (f40, set_f40, u16, 1169, 12),
    (f41, set_f41, i16, 1181, 10),
    (f42, set_f42, i64, 1191, 45),
    (f43, set_f43, i64, 1236, 47),
    (f44, set_f44, u64, 1283, 38),
    (f45, set_f45, i64, 1321, 61),
    (f46, set_f46, i32, 1382, 25),
    (f47, set_f47, i64, 1407, 55));

rec_struct!(W4, RefW4, RefMutW4, "struct W4", 185,
    (f0, set_f0, i64, 793, 38),
    (f1, set_f1, i32, 489, 22),
    (f2, set_f2, i64, 653, 44),
    (f3, set_f3, i32, 1396, 19),
    (f4, set_f4, i32, 31, 19),
    (f5, set_f5, i32, 760, 17),
    (f6, set_f6, u64, 50, 44),
    (f7, set_f7, u64, 402, 34),
    (f8, set_f8, u64, 904, 54),
    (f9, set_f9, i64, 260, 28),
    (f10, set_f10, u8, 252, 7),
    (f11, set_f11, u16, 831, 11),
    (f12, set_f12, i64, 998, 19),
    (f13, set_f13, u16, 337, 16),
    (f14, set_f14, u16, 1187, 12),
    (f15, set_f15, u32, 7, 24),
    (f16, set_f16, u32, 1328, 26),
    (f17, set_f17, i32, 94, 19),
    (f18, set_f18, u32, 436, 18),
    (f19, set_f19, i32, 459, 30),
    (f20, set_f20, u64, 1127, 52),
    (f21, set_f21, i16, 777, 16),
    (f22, set_f22, i64, 511, 54),
    (f23, set_f23, i32, 353, 21),
    (f24, set_f24, u32, 1415, 19),
    (f25, set_f25, u32, 650, 3),
    (f26, set_f26, u16, 374, 9),
    (f27, set_f27, i8, 697, 6),
    (f28, set_f28, i64, 1073, 54),
    (f29, set_f29, u64, 565, 47),
    (f30, set_f30, i64, 958, 40),
    (f31, set_f31, i16, 389, 13),
    (f32, set_f32, i64, 113, 62),
    (f33, set_f33, u16, 237, 13),
    (f34, set_f34, i64, 175, 62),
    (f35, set_f35, i64, 842, 62),
    (f36, set_f36, u64, 612, 38),
    (f37, set_f37, i32, 250, 2),
    (f38, set_f38, i64, 1285, 43),
    (f39, set_f39, bool, 259, 1),
    (f40, set_f40, i64, 703, 57),
    (f41, set_f41, i64, 1199, 60),
    (f42, set_f42, i64, 1354, 42),
    (f43, set_f43, u64, 1434, 40),
    (f44, set_f44, u32, 1179, 8),
    (f45, set_f45, i32, 1259, 26),
    (f46, set_f46, u64, 1017, 56),
    (f47, set_f47, i64, 288, 49));

rec_struct!(W5, RefW5, RefMutW5, "struct W5", 151,
    (f0, set_f0, i8, 7, 7),
    (f1, set_f1, u16, 14, 13),
    (f2, set_f2, i64, 27, 36),
    (f3, set_f3, i32, 63, 30),
    (f4, set_f4, i32, 93, 17),
    (f5, set_f5, u64, 110, 30),
    (f6, set_f6, u8, 140, 6),
    (f7, set_f7, i32, 146, 17),
    (f8, set_f8, i32, 163, 31),
    (f9, set_f9, u8, 194, 1),
    (f10, set_f10, i32, 195, 28),
    (f11, set_f11, u32, 223, 27),
    (f12, set_f12, u32, 250, 22),
    (f13, set_f13, u64, 272, 18),
    (f14, set_f14, u64, 290, 39),
    (f15, set_f15, i64, 329, 56),
    (f16, set_f16, u8, 385, 6),
    (f17, set_f17, i32, 391, 21),
    (f18, set_f18, i64, 412, 59),
    (f19, set_f19, u32, 471, 29),
    (f20, set_f20, i32, 500, 2),
    (f21, set_f21, i32, 509, 32),
    (f22, set_f22, i8, 541, 8),
    (f23, set_f23, i64, 549, 33),
    (f24, set_f24, i64, 584, 41),
    (f25, set_f25, u32, 625, 23),
    (f26, set_f26, i16, 648, 10),
    (f27, set_f27, i32, 658, 27),
    (f28, set_f28, i64, 685, 60),
    (f29, set_f29, u32, 745, 17),
    (f30, set_f30, i32, 762, 31),
    (f31, set_f31, i64, 793, 36),
    (f32, set_f32, u32, 829, 2),
    (f33, set_f33, u64, 832, 33),
    (f34, set_f34, i16, 865, 14),
    (f35, set_f35, u32, 879, 7),
    (f36, set_f36, i64, 886, 34),
    (f37, set_f37, u32, 920, 19),
    (f38, set_f38, u64, 939, 57),
    (f39, set_f39, u16, 996, 14),
    (f40, set_f40, u64, 1010, 18),
    (f41, set_f41, i32, 1028, 24),
    (f42, set_f42, i8, 1052, 7),
    (f43, set_f43, u64, 1059, 52),
    (f44, set_f44, i16, 1111, 10),
    (f45, set_f45, i32, 1121, 30),
    (f46, set_f46, i32, 1151, 23),
    (f47, set_f47, u32, 1174, 29));

rec_struct!(W6, RefW6, RefMutW6, "struct W6", 184,
    (f0, set_f0, i32, 3, 32),
    (f1, set_f1, u64, 35, 42),
    (f2, set_f2, u64, 77, 35),
    (f3, set_f3, i32, 112, 29),
    (f4, set_f4, u64, 141, 37),
    (f5, set_f5, u32, 178, 25),
    (f6, set_f6, u64, 203, 39),
    (f7, set_f7, i16, 242, 14),
    (f8, set_f8, u16, 256, 1),
    (f9, set_f9, i64, 257, 59),
    (f10, set_f10, u8, 316, 4),
    (f11, set_f11, u64, 326, 60),
    (f12, set_f12, u64, 386, 50),
    (f13, set_f13, u32, 436, 28),
    (f14, set_f14, i32, 464, 22),
    (f15, set_f15, u64, 486, 41),
    (f16, set_f16, u32, 527, 30),
    (f17, set_f17, i64, 557, 62),
    (f18, set_f18, u16, 619, 9),
    (f19, set_f19, u64, 628, 56),
    (f20, set_f20, u64, 684, 12),
    (f21, set_f21, i64, 696, 37),
    (f22, set_f22, u16, 733, 10),
    (f23, set_f23, u64, 743, 53),
    (f24, set_f24, i32, 796, 26),
    (f25, set_f25, i8, 822, 5),
    (f26, set_f26, i32, 827, 19),
    (f27, set_f27, u32, 846, 19),
    (f28, set_f28, u64, 865, 50),
    (f29, set_f29, i64, 915, 57),
    (f30, set_f30, i8, 972, 5),
    (f31, set_f31, i32, 977, 32),
    (f32, set_f32, i64, 1010, 61),
    (f33, set_f33, i8, 1071, 4),
    (f34, set_f34, i64, 1075, 42),
    (f35, set_f35, i64, 1117, 58),
    (f36, set_f36, i64, 1175, 52),
    (f37, set_f37, i16, 1227, 13),
    (f38, set_f38, i16, 1240, 13),
    (f39, set_f39, u32, 1253, 26),
    (f40, set_f40, i8, 1279, 6),
    (f41, set_f41, i32, 1288, 20),
    (f42, set_f42, i64, 1308, 58),
    (f43, set_f43, u32, 1366, 25),
    (f44, set_f44, i8, 1391, 8),
    (f45, set_f45, i8, 1399, 2),
    (f46, set_f46, i8, 1401, 8),
    (f47, set_f47, i64, 1409, 60));

rec_struct!(W7, RefW7, RefMutW7, "struct W7", 218,
    (f0, set_f0, i64, 2, 46),
    (f1, set_f1, bool, 48, 1),
    (f2, set_f2, u64, 49, 63),
    (f3, set_f3, u64, 112, 53),
    (f4, set_f4, i64, 165, 54),
    (f5, set_f5, i64, 219, 47),
    (f6, set_f6, i64, 272, 50),
    (f7, set_f7, i8, 322, 8),
    (f8, set_f8, u64, 330, 61),
    (f9, set_f9, u8, 391, 6),
    (f10, set_f10, i32, 397, 30),
    (f11, set_f11, i32, 427, 17),
    (f12, set_f12, i32, 444, 28),
    (f13, set_f13, u32, 472, 30),
    (f14, set_f14, u32, 502, 4),
    (f15, set_f15, i64, 506, 24),
    (f16, set_f16, u64, 530, 53),
    (f17, set_f17, u64, 583, 57),
    (f18, set_f18, u8, 644, 5),
    (f19, set_f19, i64, 649, 45),
    (f20, set_f20, i32, 694, 11),
    (f21, set_f21, u64, 705, 39),
    (f22, set_f22, u8, 744, 2),
    (f23, set_f23, u64, 746, 57),
    (f24, set_f24, u64, 804, 44),
    (f25, set_f25, i64, 848, 39),
    (f26, set_f26, u64, 887, 19),
    (f27, set_f27, u64, 906, 51),
    (f28, set_f28, u32, 957, 32),
    (f29, set_f29, i32, 989, 29),
    (f30, set_f30, u32, 1018, 27),
    (f31, set_f31, i64, 1052, 61),
    (f32, set_f32, i64, 1113, 44),
    (f33, set_f33, i64, 1157, 45),
    (f34, set_f34, u64, 1204, 63),
    (f35, set_f35, u16, 1268, 11),
    (f36, set_f36, u32, 1279, 25),
    (f37, set_f37, u64, 1304, 50),
    (f38, set_f38, i64, 1354, 36),
    (f39, set_f39, i64, 1390, 64),
    (f40, set_f40, u64, 1454, 42),
    (f41, set_f41, i32, 1496, 26),
    (f42, set_f42, u32, 1522, 24),
    (f43, set_f43, u64, 1546, 62),
    (f44, set_f44, u64, 1608, 24),
    (f45, set_f45, bool, 1632, 1),
    (f46, set_f46, i64, 1633, 41),
    (f47, set_f47, u64, 1675, 62));

rec_struct!(W8, RefW8, RefMutW8, "struct W8", 181,
    (f0, set_f0, u64, 4, 48),
    (f1, set_f1, i64, 52, 44),
    (f2, set_f2, u16, 96, 16),
    (f3, set_f3, i8, 112, 3),
    (f4, set_f4, i32, 115, 21),
    (f5, set_f5, i8, 136, 7),
    (f6, set_f6, i64, 143, 50),
    (f7, set_f7, u64, 193, 48),
    (f8, set_f8, i64, 241, 64),
    (f9, set_f9, i32, 305, 27),
    (f10, set_f10, u32, 332, 19),
    (f11, set_f11, i64, 351, 58),
    (f12, set_f12, i64, 409, 58),
    (f13, set_f13, u16, 467, 10),
    (f14, set_f14, i8, 477, 4),
    (f15, set_f15, i32, 481, 5),
    (f16, set_f16, i8, 486, 2),
    (f17, set_f17, u32, 488, 23),
    (f18, set_f18, u32, 511, 32),
    (f19, set_f19, i8, 543, 5),
    (f20, set_f20, i16, 548, 13),
    (f21, set_f21, u64, 561, 37),
    (f22, set_f22, u64, 598, 52),
    (f23, set_f23, i8, 650, 7),
    (f24, set_f24, u64, 657, 60),
    (f25, set_f25, i64, 717, 18),
    (f26, set_f26, u16, 735, 9),
    (f27, set_f27, u64, 744, 35),
    (f28, set_f28, u32, 779, 28),
    (f29, set_f29, i32, 807, 24),
    (f30, set_f30, i32, 831, 29),
    (f31, set_f31, i32, 860, 31),
    (f32, set_f32, i64, 891, 33),
    (f33, set_f33, i64, 924, 42),
    (f34, set_f34, i64, 966, 57),
    (f35, set_f35, u8, 1023, 3),
    (f36, set_f36, u64, 1026, 45),
    (f37, set_f37, i16, 1071, 15),
    (f38, set_f38, u8, 1086, 1),
    (f39, set_f39, u64, 1087, 58),
    (f40, set_f40, u64, 1145, 36),
    (f41, set_f41, i64, 1181, 61),
    (f42, set_f42, u16, 1242, 10),
    (f43, set_f43, u64, 1252, 49),
    (f44, set_f44, u64, 1301, 43),
    (f45, set_f45, u32, 1344, 29),
    (f46, set_f46, i32, 1373, 28),
    (f47, set_f47, u64, 1401, 45));

rec_struct!(W9, RefW9, RefMutW9, "struct W9", 162,
    (f0, set_f0, i32, 1, 28),
    (f1, set_f1, i8, 29, 2),
    (f2, set_f2, i16, 38, 16),
    (f3, set_f3, i32, 54, 21),
    (f4, set_f4, u64, 75, 36),
    (f5, set_f5, i8, 116, 4),
    (f6, set_f6, u32, 120, 28),
    (f7, set_f7, i32, 148, 30),
    (f8, set_f8, i8, 178, 3),
    (f9, set_f9, i64, 183, 44),
    (f10, set_f10, u16, 227, 16),
    (f11, set_f11, u16, 246, 15),
    (f12, set_f12, i64, 261, 59),
    (f13, set_f13, u32, 320, 27),
    (f14, set_f14, i64, 347, 35),
    (f15, set_f15, u64, 382, 27),
    (f16, set_f16, i32, 409, 25),
    (f17, set_f17, i64, 434, 40),
    (f18, set_f18, u16, 474, 14),
    (f19, set_f19, i32, 488, 31),
    (f20, set_f20, u8, 519, 2),
    (f21, set_f21, i8, 521, 2),
    (f22, set_f22, i32, 526, 31),
    (f23, set_f23, u32, 557, 12),
    (f24, set_f24, u8, 569, 3),
    (f25, set_f25, u8, 572, 3),
    (f26, set_f26, i32, 575, 25),
    (f27, set_f27, i64, 600, 53),
    (f28, set_f28, i64, 653, 41),
    (f29, set_f29, i32, 694, 23),
    (f30, set_f30, u32, 717, 19),
    (f31, set_f31, u64, 736, 61),
    (f32, set_f32, u64, 797, 44),
    (f33, set_f33, u64, 841, 49),
    (f34, set_f34, u8, 890, 7),
    (f35, set_f35, i64, 897, 42),
    (f36, set_f36, i64, 939, 61),
    (f37, set_f37, u64, 1000, 64),
    (f38, set_f38, i16, 1064, 12),
    (f39, set_f39, i64, 1076, 51),
    (f40, set_f40, i8, 1127, 3),
    (f41, set_f41, u32, 1130, 17),
    (f42, set_f42, u8, 1147, 6),
    (f43, set_f43, u32, 1153, 27),
    (f44, set_f44, u64, 1180, 60),
    (f45, set_f45, u8, 1240, 3),
    (f46, set_f46, u8, 1243, 4),
    (f47, set_f47, u64, 1247, 44));

rec_struct!(W10, RefW10, RefMutW10, "struct W10", 205,
    (f0, set_f0, u64, 5, 33),
    (f1, set_f1, i32, 38, 20),
    (f2, set_f2, u16, 58, 16),
    (f3, set_f3, i64, 74, 64),
    (f4, set_f4, i32, 138, 24),
    (f5, set_f5, u32, 162, 23),
    (f6, set_f6, u32, 185, 4),
    (f7, set_f7, u16, 189, 12),
    (f8, set_f8, u16, 201, 9),
    (f9, set_f9, u16, 210, 12),
    (f10, set_f10, i64, 222, 49),
    (f11, set_f11, u64, 271, 63),
    (f12, set_f12, i32, 334, 18),
    (f13, set_f13, i64, 352, 45),
    (f14, set_f14, u64, 397, 54),
    (f15, set_f15, u8, 451, 3),
    (f16, set_f16, i64, 454, 52),
    (f17, set_f17, i32, 506, 20),
    (f18, set_f18, u64, 526, 5),
    (f19, set_f19, i64, 531, 58),
    (f20, set_f20, i64, 589, 64),
    (f21, set_f21, i64, 653, 47),
    (f22, set_f22, i64, 700, 40),
    (f23, set_f23, i32, 740, 23),
    (f24, set_f24, i64, 763, 40),
    (f25, set_f25, u64, 803, 49),
    (f26, set_f26, i64, 852, 41),
    (f27, set_f27, u32, 893, 31),
    (f28, set_f28, bool, 924, 1),
    (f29, set_f29, u32, 925, 1),
    (f30, set_f30, i8, 926, 7),
    (f31, set_f31, i64, 933, 53),
    (f32, set_f32, u16, 991, 14),
    (f33, set_f33, u64, 1012, 41),
    (f34, set_f34, i16, 1053, 9),
    (f35, set_f35, u64, 1062, 47),
    (f36, set_f36, i64, 1109, 42),
    (f37, set_f37, i64, 1151, 64),
    (f38, set_f38, u64, 1215, 62),
    (f39, set_f39, u64, 1284, 45),
    (f40, set_f40, i16, 1329, 9),
    (f41, set_f41, i64, 1338, 26),
    (f42, set_f42, i32, 1364, 25),
    (f43, set_f43, i64, 1389, 38),
    (f44, set_f44, u64, 1432, 59),
    (f45, set_f45, u64, 1491, 54),
    (f46, set_f46, u64, 1545, 57),
    (f47, set_f47, u64, 1602, 37));

rec_struct!(W11, RefW11, RefMutW11, "struct W11", 213,
    (f0, set_f0, u64, 4, 50),
    (f1, set_f1, u64, 54, 59),
    (f2, set_f2, u64, 113, 64),
    (f3, set_f3, u64, 177, 40),
    (f4, set_f4, i64, 217, 40),
    (f5, set_f5, bool, 257, 1),
    (f6, set_f6, u64, 258, 59),
    (f7, set_f7, u64, 317, 42),
    (f8, set_f8, u64, 364, 62),
    (f9, set_f9, u64, 426, 49),
    (f10, set_f10, i32, 479, 31),
    (f11, set_f11, u8, 510, 4),
    (f12, set_f12, i64, 514, 44),
    (f13, set_f13, u32, 558, 31),
    (f14, set_f14, bool, 589, 1),
    (f15, set_f15, u64, 590, 33),
    (f16, set_f16, u32, 623, 28),
    (f17, set_f17, i64, 651, 52),
    (f18, set_f18, i64, 703, 32),
    (f19, set_f19, i64, 735, 46),
    (f20, set_f20, i16, 784, 16),
    (f21, set_f21, i64, 800, 43),
    (f22, set_f22, i64, 843, 44),
    (f23, set_f23, u32, 887, 22),
    (f24, set_f24, i16, 909, 14),
    (f25, set_f25, i64, 924, 55),
    (f26, set_f26, u64, 979, 33),
    (f27, set_f27, i64, 1012, 60),
    (f28, set_f28, u32, 1072, 21),
    (f29, set_f29, u8, 1093, 1),
    (f30, set_f30, u8, 1094, 2),
    (f31, set_f31, u64, 1096, 56),
    (f32, set_f32, u8, 1152, 4),
    (f33, set_f33, i64, 1156, 33),
    (f34, set_f34, i32, 1189, 25),
    (f35, set_f35, u64, 1220, 57),
    (f36, set_f36, i32, 1277, 27),
    (f37, set_f37, u16, 1304, 14),
    (f38, set_f38, i64, 1318, 58),
    (f39, set_f39, u8, 1376, 8),
    (f40, set_f40, i64, 1384, 38),
    (f41, set_f41, u64, 1422, 54),
    (f42, set_f42, u32, 1476, 26),
    (f43, set_f43, u32, 1502, 20),
    (f44, set_f44, i64, 1522, 47),
    (f45, set_f45, i32, 1569, 24),
    (f46, set_f46, u64, 1593, 59),
    (f47, set_f47, i64, 1652, 46));

rec_struct!(W12, RefW12, RefMutW12, "struct W12", 171,
    (f0, set_f0, u64, 994, 47),
    (f1, set_f1, u64, 1076, 36),
    (f2, set_f2, i16, 1355, 9),
    (f3, set_f3, u32, 1337, 18),
    (f4, set_f4, i16, 722, 9),
    (f5, set_f5, i64, 564, 50),
    (f6, set_f6, u64, 1167, 28),
    (f7, set_f7, u32, 1041, 31),
    (f8, set_f8, u64, 11, 41),
    (f9, set_f9, i8, 1072, 4),
    (f10, set_f10, u32, 1195, 24),
    (f11, set_f11, i64, 660, 35),
    (f12, set_f12, i16, 931, 15),
    (f13, set_f13, u16, 854, 11),
    (f14, set_f14, i64, 256, 46),
    (f15, set_f15, u64, 502, 62),
    (f16, set_f16, i64, 364, 12),
    (f17, set_f17, u64, 122, 63),
    (f18, set_f18, u64, 314, 42),
    (f19, set_f19, u32, 907, 18),
    (f20, set_f20, u16, 1115, 14),
    (f21, set_f21, i32, 614, 29),
    (f22, set_f22, u16, 302, 12),
    (f23, set_f23, u64, 865, 42),
    (f24, set_f24, i64, 427, 39),
    (f25, set_f25, u64, 67, 47),
    (f26, set_f26, u8, 721, 1),
    (f27, set_f27, u32, 185, 25),
    (f28, set_f28, u16, 647, 13),
    (f29, set_f29, i8, 356, 8),
    (f30, set_f30, i32, 972, 22),
    (f31, set_f31, i32, 946, 26),
    (f32, set_f32, u64, 376, 51),
    (f33, set_f33, i64, 815, 39),
    (f34, set_f34, u64, 466, 36),
    (f35, set_f35, u16, 708, 13),
    (f36, set_f36, u16, 52, 15),
    (f37, set_f37, i8, 763, 2),
    (f38, set_f38, i64, 765, 50),
    (f39, set_f39, u8, 114, 8),
    (f40, set_f40, u8, 1330, 4),
    (f41, set_f41, i16, 695, 13),
    (f42, set_f42, i64, 1219, 62),
    (f43, set_f43, i64, 1281, 49),
    (f44, set_f44, u32, 731, 30),
    (f45, set_f45, i8, 1334, 3),
    (f46, set_f46, u64, 210, 46),
    (f47, set_f47, u64, 1129, 35));

rec_struct!(W13, RefW13, RefMutW13, "struct W13", 205,
    (f0, set_f0, i64, 2, 48),
    (f1, set_f1, i32, 50, 23),
    (f2, set_f2, u8, 73, 4),
    (f3, set_f3, u64, 77, 46),
    (f4, set_f4, i64, 123, 48),
    (f5, set_f5, u64, 171, 7),
    (f6, set_f6, i64, 178, 43),
    (f7, set_f7, u16, 223, 5),
    (f8, set_f8, u64, 228, 2),
    (f9, set_f9, i32, 230, 22),
    (f10, set_f10, u64, 252, 35),
    (f11, set_f11, u64, 287, 34),
    (f12, set_f12, i64, 321, 57),
    (f13, set_f13, i64, 378, 56),
    (f14, set_f14, i64, 434, 54),
    (f15, set_f15, i64, 488, 59),
    (f16, set_f16, u64, 547, 53),
    (f17, set_f17, u64, 600, 58),
    (f18, set_f18, u16, 658, 9),
    (f19, set_f19, u32, 667, 17),
    (f20, set_f20, i64, 684, 38),
    (f21, set_f21, i64, 722, 50),
    (f22, set_f22, u64, 772, 51),
    (f23, set_f23, i64, 823, 56),
    (f24, set_f24, i64, 879, 40),
    (f25, set_f25, u32, 919, 20),
    (f26, set_f26, i32, 944, 27),
    (f27, set_f27, u64, 971, 63),
    (f28, set_f28, u8, 1034, 6),
    (f29, set_f29, i16, 1040, 15),
    (f30, set_f30, i64, 1055, 22),
    (f31, set_f31, u64, 1077, 28),
    (f32, set_f32, u32, 1105, 24),
    (f33, set_f33, u64, 1129, 46),
    (f34, set_f34, i32, 1181, 18),
    (f35, set_f35, i16, 1199, 14),
    (f36, set_f36, bool, 1213, 1),
    (f37, set_f37, u64, 1214, 25),
    (f38, set_f38, i64, 1239, 20),
    (f39, set_f39, i64, 1259, 64),
    (f40, set_f40, u64, 1323, 61),
    (f41, set_f41, u64, 1384, 62),
    (f42, set_f42, u32, 1452, 27),
    (f43, set_f43, i16, 1479, 16),
    (f44, set_f44, u64, 1501, 56),
    (f45, set_f45, u32, 1557, 28),
    (f46, set_f46, i64, 1585, 34),
    (f47, set_f47, u32, 1619, 21));

rec_struct!(W14, RefW14, RefMutW14, "struct W14", 155,
    (f0, set_f0, u8, 6, 6),
    (f1, set_f1, u64, 12, 59),
    (f2, set_f2, u64, 71, 64),
    (f3, set_f3, u64, 135, 40),
    (f4, set_f4, i32, 175, 22),
    (f5, set_f5, u8, 197, 6),
    (f6, set_f6, u8, 203, 1),
    (f7, set_f7, u64, 208, 10),
    (f8, set_f8, u32, 218, 30),
    (f9, set_f9, u16, 248, 12),
    (f10, set_f10, u16, 260, 16),
    (f11, set_f11, u32, 276, 17),
    (f12, set_f12, i64, 293, 37),
    (f13, set_f13, i64, 330, 49),
    (f14, set_f14, u64, 384, 34),
    (f15, set_f15, u32, 418, 20),
    (f16, set_f16, i32, 438, 17),
    (f17, set_f17, u64, 455, 37),
    (f18, set_f18, i32, 492, 29),
    (f19, set_f19, u8, 521, 7),
    (f20, set_f20, i64, 528, 61),
    (f21, set_f21, i16, 589, 12),
    (f22, set_f22, i16, 601, 11),
    (f23, set_f23, u64, 612, 53),
    (f24, set_f24, u32, 669, 29),
    (f25, set_f25, u32, 698, 21),
    (f26, set_f26, u16, 719, 16),
    (f27, set_f27, u32, 735, 17),
    (f28, set_f28, u16, 758, 10),
    (f29, set_f29, i64, 768, 44),
    (f30, set_f30, u8, 812, 2),
    (f31, set_f31, u64, 814, 58),
    (f32, set_f32, i64, 872, 40),
    (f33, set_f33, i32, 912, 25),
    (f34, set_f34, u32, 937, 30),
    (f35, set_f35, u64, 967, 54),
    (f36, set_f36, u8, 1021, 7),
    (f37, set_f37, u16, 1028, 9),
    (f38, set_f38, u32, 1038, 17),
    (f39, set_f39, bool, 1055, 1),
    (f40, set_f40, i64, 1062, 39),
    (f41, set_f41, u64, 1101, 40),
    (f42, set_f42, u8, 1141, 2),
    (f43, set_f43, i32, 1143, 32),
    (f44, set_f44, bool, 1175, 1),
    (f45, set_f45, i8, 1176, 6),
    (f46, set_f46, u64, 1182, 35),
    (f47, set_f47, i32, 1217, 20));

rec_struct!(W15, RefW15, RefMutW15, "struct W15", 194,
    (f0, set_f0, u64, 7, 38),
    (f1, set_f1, i8, 45, 7),
    (f2, set_f2, u64, 52, 47),
    (f3, set_f3, u8, 102, 3),
    (f4, set_f4, u32, 110, 27),
    (f5, set_f5, u64, 137, 55),
    (f6, set_f6, u32, 192, 32),
    (f7, set_f7, i8, 224, 2),
    (f8, set_f8, u64, 230, 48),
    (f9, set_f9, i16, 278, 10),
    (f10, set_f10, u16, 288, 11),
    (f11, set_f11, i64, 299, 63),
    (f12, set_f12, u8, 362, 5),
    (f13, set_f13, u8, 367, 7),
    (f14, set_f14, i64, 374, 43),
    (f15, set_f15, i64, 417, 33),
    (f16, set_f16, i32, 450, 25),
    (f17, set_f17, u64, 477, 36),
    (f18, set_f18, i64, 513, 47),
    (f19, set_f19, i64, 560, 51),
    (f20, set_f20, u64, 611, 20),
    (f21, set_f21, i64, 631, 51),
    (f22, set_f22, i64, 682, 53),
    (f23, set_f23, u32, 735, 31),
    (f24, set_f24, i64, 766, 45),
    (f25, set_f25, u32, 811, 25),
    (f26, set_f26, u64, 836, 19),
    (f27, set_f27, u64, 855, 51),
    (f28, set_f28, i32, 906, 18),
    (f29, set_f29, i16, 924, 9),
    (f30, set_f30, u32, 933, 17),
    (f31, set_f31, i16, 950, 14),
    (f32, set_f32, u32, 964, 30),
    (f33, set_f33, i64, 994, 52),
    (f34, set_f34, u32, 1046, 32),
    (f35, set_f35, i64, 1078, 53),
    (f36, set_f36, i32, 1131, 25),
    (f37, set_f37, i16, 1156, 11),
    (f38, set_f38, i64, 1167, 38),
    (f39, set_f39, u64, 1205, 49),
    (f40, set_f40, u64, 1254, 55),
    (f41, set_f41, u8, 1309, 8),
    (f42, set_f42, u64, 1317, 63),
    (f43, set_f43, i64, 1381, 56),
    (f44, set_f44, u32, 1437, 20),
    (f45, set_f45, i64, 1457, 43),
    (f46, set_f46, u8, 1500, 8),
    (f47, set_f47, i64, 1508, 43));

rec_struct!(W16, RefW16, RefMutW16, "struct W16", 212,
    (f0, set_f0, u64, 1444, 52),
    (f1, set_f1, u64, 1033, 33),
    (f2, set_f2, u32, 4, 20),
    (f3, set_f3, u32, 1077, 22),
    (f4, set_f4, i64, 1099, 49),
    (f5, set_f5, i64, 1277, 34),
    (f6, set_f6, i8, 1194, 6),
    (f7, set_f7, i64, 57, 48),
    (f8, set_f8, i64, 1239, 35),
    (f9, set_f9, i64, 105, 51),
    (f10, set_f10, i8, 875, 8),
    (f11, set_f11, u64, 437, 18),
    (f12, set_f12, i32, 1414, 30),
    (f13, set_f13, i64, 1602, 33),
    (f14, set_f14, u8, 1070, 7),
    (f15, set_f15, i64, 566, 56),
    (f16, set_f16, u16, 686, 8),
    (f17, set_f17, u32, 1015, 18),
    (f18, set_f18, i64, 24, 33),
    (f19, set_f19, u32, 533, 27),
    (f20, set_f20, u32, 1002, 13),
    (f21, set_f21, u64, 1496, 63),
    (f22, set_f22, u64, 1311, 55),
    (f23, set_f23, u64, 1200, 39),
    (f24, set_f24, u64, 229, 45),
    (f25, set_f25, i16, 924, 12),
    (f26, set_f26, i64, 374, 63),
    (f27, set_f27, u64, 941, 61),
    (f28, set_f28, i64, 764, 53),
    (f29, set_f29, u64, 1635, 55),
    (f30, set_f30, i8, 1066, 4),
    (f31, set_f31, u64, 633, 53),
    (f32, set_f32, u32, 455, 21),
    (f33, set_f33, i64, 315, 59),
    (f34, set_f34, i64, 883, 41),
    (f35, set_f35, u64, 156, 55),
    (f36, set_f36, i8, 817, 5),
    (f37, set_f37, u64, 822, 53),
    (f38, set_f38, i64, 1366, 48),
    (f39, set_f39, u64, 737, 27),
    (f40, set_f40, u64, 694, 43),
    (f41, set_f41, i64, 274, 41),
    (f42, set_f42, u8, 1691, 2),
    (f43, set_f43, i32, 211, 18),
    (f44, set_f44, u64, 1148, 46),
    (f45, set_f45, u64, 1559, 43),
    (f46, set_f46, u64, 483, 50),
    (f47, set_f47, i16, 622, 11));

rec_struct!(W17, RefW17, RefMutW17, "struct W17", 158,
    (f0, set_f0, i32, 4, 18),
    (f1, set_f1, u32, 22, 22),
    (f2, set_f2, bool, 44, 1),
    (f3, set_f3, u64, 48, 52),
    (f4, set_f4, i8, 100, 2),
    (f5, set_f5, i16, 102, 15),
    (f6, set_f6, u16, 117, 14),
    (f7, set_f7, i64, 131, 43),
    (f8, set_f8, i32, 174, 26),
    (f9, set_f9, i64, 200, 64),
    (f10, set_f10, u32, 264, 25),
    (f11, set_f11, i16, 289, 4),
    (f12, set_f12, u32, 293, 25),
    (f13, set_f13, u32, 318, 30),
    (f14, set_f14, u64, 348, 17),
    (f15, set_f15, u16, 365, 16),
    (f16, set_f16, i64, 381, 28),
    (f17, set_f17, i64, 409, 50),
    (f18, set_f18, i8, 459, 7),
    (f19, set_f19, i64, 466, 63),
    (f20, set_f20, u16, 529, 14),
    (f21, set_f21, u32, 543, 16),
    (f22, set_f22, u8, 559, 1),
    (f23, set_f23, i64, 560, 60),
    (f24, set_f24, u64, 620, 37),
    (f25, set_f25, u8, 657, 8),
    (f26, set_f26, u16, 665, 15),
    (f27, set_f27, i32, 683, 24),
    (f28, set_f28, u8, 707, 7),
    (f29, set_f29, u32, 714, 19),
    (f30, set_f30, u32, 733, 23),
    (f31, set_f31, i64, 756, 48),
    (f32, set_f32, i64, 804, 45),
    (f33, set_f33, i32, 849, 17),
    (f34, set_f34, i64, 866, 55),
    (f35, set_f35, i32, 921, 26),
    (f36, set_f36, i8, 947, 5),
    (f37, set_f37, i16, 952, 11),
    (f38, set_f38, u32, 963, 20),
    (f39, set_f39, i16, 983, 11),
    (f40, set_f40, u32, 994, 31),
    (f41, set_f41, u64, 1030, 63),
    (f42, set_f42, u64, 1093, 38),
    (f43, set_f43, u64, 1131, 45),
    (f44, set_f44, u8, 1176, 7),
    (f45, set_f45, u8, 1183, 5),
    (f46, set_f46, i64, 1188, 56),
    (f47, set_f47, i32, 1244, 20));

rec_struct!(W18, RefW18, RefMutW18, "struct W18", 197,
    (f0, set_f0, u64, 2, 43),
    (f1, set_f1, i8, 45, 5),
    (f2, set_f2, i32, 50, 29),
    (f3, set_f3, i64, 79, 61),
    (f4, set_f4, i64, 140, 63),
    (f5, set_f5, i64, 203, 46),
    (f6, set_f6, bool, 249, 1),
    (f7, set_f7, u64, 254, 36),
    (f8, set_f8, u64, 290, 55),
    (f9, set_f9, u32, 345, 32),
    (f10, set_f10, i16, 377, 10),
    (f11, set_f11, i64, 387, 51),
    (f12, set_f12, i8, 438, 6),
    (f13, set_f13, u16, 444, 12),
    (f14, set_f14, i64, 456, 58),
    (f15, set_f15, i32, 518, 32),
    (f16, set_f16, i64, 550, 38),
    (f17, set_f17, u64, 588, 42),
    (f18, set_f18, i64, 630, 33),
    (f19, set_f19, u32, 663, 23),
    (f20, set_f20, i64, 686, 36),
    (f21, set_f21, i16, 722, 13),
    (f22, set_f22, u32, 735, 26),
    (f23, set_f23, u16, 761, 10),
    (f24, set_f24, i64, 771, 45),
    (f25, set_f25, u16, 816, 9),
    (f26, set_f26, u64, 825, 38),
    (f27, set_f27, u64, 863, 20),
    (f28, set_f28, i64, 883, 60),
    (f29, set_f29, i16, 943, 12),
    (f30, set_f30, u8, 955, 5),
    (f31, set_f31, i64, 960, 57),
    (f32, set_f32, u64, 1017, 51),
    (f33, set_f33, u64, 1069, 57),
    (f34, set_f34, bool, 1126, 1),
    (f35, set_f35, u64, 1133, 10),
    (f36, set_f36, u64, 1143, 59),
    (f37, set_f37, u32, 1205, 18),
    (f38, set_f38, i64, 1223, 63),
    (f39, set_f39, i32, 1286, 27),
    (f40, set_f40, i8, 1313, 4),
    (f41, set_f41, i32, 1317, 31),
    (f42, set_f42, i64, 1348, 34),
    (f43, set_f43, u64, 1382, 39),
    (f44, set_f44, u64, 1421, 39),
    (f45, set_f45, u64, 1460, 43),
    (f46, set_f46, u64, 1503, 48),
    (f47, set_f47, u64, 1551, 21));

rec_struct!(W19, RefW19, RefMutW19, "struct W19", 197,
    (f0, set_f0, i32, 7, 27),
    (f1, set_f1, u64, 34, 35),
    (f2, set_f2, i16, 69, 15),
    (f3, set_f3, i32, 84, 32),
    (f4, set_f4, u32, 116, 25),
    (f5, set_f5, i16, 141, 16),
    (f6, set_f6, i64, 157, 24),
    (f7, set_f7, u64, 181, 58),
    (f8, set_f8, u64, 239, 46),
    (f9, set_f9, u64, 285, 52),
    (f10, set_f10, i8, 337, 7),
    (f11, set_f11, i64, 344, 36),
    (f12, set_f12, u64, 380, 10),
    (f13, set_f13, u8, 395, 8),
    (f14, set_f14, i64, 403, 56),
    (f15, set_f15, i32, 459, 29),
    (f16, set_f16, i64, 488, 35),
    (f17, set_f17, i16, 523, 14),
    (f18, set_f18, u64, 537, 14),
    (f19, set_f19, u64, 551, 39),
    (f20, set_f20, i64, 590, 47),
    (f21, set_f21, i32, 637, 9),
    (f22, set_f22, i64, 648, 62),
    (f23, set_f23, u64, 710, 56),
    (f24, set_f24, i64, 766, 41),
    (f25, set_f25, i64, 807, 48),
    (f26, set_f26, u64, 855, 49),
    (f27, set_f27, u64, 904, 36),
    (f28, set_f28, i32, 940, 13),
    (f29, set_f29, i32, 953, 16),
    (f30, set_f30, u64, 969, 44),
    (f31, set_f31, i8, 1013, 6),
    (f32, set_f32, u32, 1019, 23),
    (f33, set_f33, i8, 1042, 2),
    (f34, set_f34, u32, 1044, 31),
    (f35, set_f35, u16, 1077, 15),
    (f36, set_f36, i64, 1092, 37),
    (f37, set_f37, u8, 1129, 5),
    (f38, set_f38, u64, 1134, 46),
    (f39, set_f39, u64, 1180, 33),
    (f40, set_f40, i64, 1213, 36),
    (f41, set_f41, u64, 1249, 34),
    (f42, set_f42, i64, 1283, 37),
    (f43, set_f43, u64, 1320, 57),
    (f44, set_f44, i64, 1377, 53),
    (f45, set_f45, u64, 1430, 51),
    (f46, set_f46, u64, 1481, 61),
    (f47, set_f47, u64, 1542, 34));

rec_struct!(W20, RefW20, RefMutW20, "struct W20", 201,
    (f0, set_f0, u32, 3, 19),
    (f1, set_f1, u8, 24, 5),
    (f2, set_f2, u64, 29, 51),
    (f3, set_f3, i64, 80, 52),
    (f4, set_f4, i64, 132, 49),
    (f5, set_f5, u32, 181, 21),
    (f6, set_f6, u64, 202, 33),
    (f7, set_f7, u64, 235, 64),
    (f8, set_f8, u64, 299, 60),
    (f9, set_f9, i64, 359, 34),
    (f10, set_f10, u64, 393, 43),
    (f11, set_f11, i16, 436, 10),
    (f12, set_f12, u32, 446, 23),
    (f13, set_f13, u64, 472, 48),
    (f14, set_f14, u64, 520, 49),
    (f15, set_f15, u64, 569, 54),
    (f16, set_f16, i32, 623, 28),
    (f17, set_f17, u64, 651, 40),
    (f18, set_f18, i64, 691, 34),
    (f19, set_f19, u64, 725, 59),
    (f20, set_f20, u32, 784, 17),
    (f21, set_f21, u32, 801, 19),
    (f22, set_f22, u16, 820, 10),
    (f23, set_f23, u64, 830, 50),
    (f24, set_f24, i64, 880, 26),
    (f25, set_f25, u8, 906, 3),
    (f26, set_f26, i64, 909, 55),
    (f27, set_f27, u64, 964, 34),
    (f28, set_f28, u16, 1005, 11),
    (f29, set_f29, i32, 1016, 28),
    (f30, set_f30, u64, 1044, 39),
    (f31, set_f31, u64, 1083, 58),
    (f32, set_f32, i64, 1141, 57),
    (f33, set_f33, u8, 1198, 5),
    (f34, set_f34, u32, 1203, 27),
    (f35, set_f35, u16, 1230, 14),
    (f36, set_f36, i64, 1244, 54),
    (f37, set_f37, i32, 1298, 21),
    (f38, set_f38, u64, 1319, 36),
    (f39, set_f39, u64, 1355, 44),
    (f40, set_f40, i16, 1399, 9),
    (f41, set_f41, u64, 1408, 31),
    (f42, set_f42, i64, 1439, 43),
    (f43, set_f43, i16, 1482, 15),
    (f44, set_f44, i32, 1497, 19),
    (f45, set_f45, i64, 1516, 62),
    (f46, set_f46, i32, 1578, 19),
    (f47, set_f47, i32, 1597, 11));

rec_struct!(W21, RefW21, RefMutW21, "struct W21", 199,
    (f0, set_f0, i16, 6, 12),
    (f1, set_f1, i64, 18, 11),
    (f2, set_f2, i8, 29, 3),
    (f3, set_f3, u64, 32, 38),
    (f4, set_f4, i64, 70, 59),
    (f5, set_f5, u16, 129, 5),
    (f6, set_f6, i16, 134, 13),
    (f7, set_f7, i64, 147, 54),
    (f8, set_f8, i64, 201, 52),
    (f9, set_f9, i32, 253, 22),
    (f10, set_f10, i64, 280, 56),
    (f11, set_f11, i8, 336, 5),
    (f12, set_f12, u32, 341, 24),
    (f13, set_f13, i16, 365, 11),
    (f14, set_f14, u64, 376, 45),
    (f15, set_f15, i64, 421, 52),
    (f16, set_f16, u64, 473, 52),
    (f17, set_f17, u64, 525, 55),
    (f18, set_f18, u64, 583, 9),
    (f19, set_f19, i64, 592, 48),
    (f20, set_f20, u64, 640, 42),
    (f21, set_f21, u16, 682, 13),
    (f22, set_f22, u16, 695, 6),
    (f23, set_f23, i32, 701, 19),
    (f24, set_f24, u64, 720, 46),
    (f25, set_f25, i64, 766, 61),
    (f26, set_f26, u32, 827, 29),
    (f27, set_f27, u8, 856, 6),
    (f28, set_f28, u64, 862, 38),
    (f29, set_f29, i16, 900, 16),
    (f30, set_f30, u8, 916, 1),
    (f31, set_f31, i64, 917, 63),
    (f32, set_f32, u64, 980, 58),
    (f33, set_f33, i8, 1038, 8),
    (f34, set_f34, i64, 1046, 51),
    (f35, set_f35, i64, 1097, 55),
    (f36, set_f36, u64, 1159, 56),
    (f37, set_f37, u8, 1215, 8),
    (f38, set_f38, i64, 1223, 53),
    (f39, set_f39, u64, 1276, 40),
    (f40, set_f40, u64, 1320, 44),
    (f41, set_f41, i64, 1364, 64),
    (f42, set_f42, u32, 1428, 24),
    (f43, set_f43, i16, 1456, 5),
    (f44, set_f44, i32, 1461, 24),
    (f45, set_f45, i32, 1485, 26),
    (f46, set_f46, u64, 1511, 60),
    (f47, set_f47, u16, 1571, 15));

rec_struct!(W22, RefW22, RefMutW22, "struct W22", 205,
    (f0, set_f0, i64, 1584, 31),
    (f1, set_f1, u64, 40, 43),
    (f2, set_f2, i64, 562, 51),
    (f3, set_f3, i64, 1434, 34),
    (f4, set_f4, i32, 423, 26),
    (f5, set_f5, i64, 378, 45),
    (f6, set_f6, i32, 1170, 22),
    (f7, set_f7, u64, 1363, 56),
    (f8, set_f8, u16, 3, 11),
    (f9, set_f9, i64, 223, 49),
    (f10, set_f10, u64, 927, 47),
    (f11, set_f11, u32, 14, 26),
    (f12, set_f12, u32, 1002, 28),
    (f13, set_f13, u32, 1563, 16),
    (f14, set_f14, i32, 974, 28),
    (f15, set_f15, u64, 343, 35),
    (f16, set_f16, u64, 872, 55),
    (f17, set_f17, i64, 1192, 47),
    (f18, set_f18, i32, 272, 32),
    (f19, set_f19, u32, 83, 32),
    (f20, set_f20, i8, 1147, 3),
    (f21, set_f21, u32, 1243, 22),
    (f22, set_f22, u64, 161, 62),
    (f23, set_f23, i16, 521, 13),
    (f24, set_f24, i64, 690, 35),
    (f25, set_f25, u16, 1150, 16),
    (f26, set_f26, i64, 613, 49),
    (f27, set_f27, i16, 1419, 12),
    (f28, set_f28, i16, 512, 9),
    (f29, set_f29, u64, 1522, 41),
    (f30, set_f30, i8, 1166, 4),
    (f31, set_f31, u32, 1490, 32),
    (f32, set_f32, i32, 667, 23),
    (f33, set_f33, u64, 773, 60),
    (f34, set_f34, i8, 304, 8),
    (f35, set_f35, i64, 1090, 57),
    (f36, set_f36, i64, 839, 33),
    (f37, set_f37, i16, 1474, 12),
    (f38, set_f38, i32, 1265, 31),
    (f39, set_f39, u32, 534, 28),
    (f40, set_f40, i64, 725, 48),
    (f41, set_f41, u64, 1296, 60),
    (f42, set_f42, u64, 115, 34),
    (f43, set_f43, i64, 449, 63),
    (f44, set_f44, i64, 1030, 60),
    (f45, set_f45, u32, 312, 31),
    (f46, set_f46, i64, 152, 9),
    (f47, set_f47, u32, 1616, 24));

rec_struct!(W23, RefW23, RefMutW23, "struct W23", 18,
    (f0, set_f0, i64, 32, 63),
    (f1, set_f1, i64, 101, 39),
    (f2, set_f2, u32, 8, 22));

sim_archive!(Every, EveryBuilder, "archive Every { layouts; }";
    (s0, set_s0, W0, "s0 : W0", true),
    (s4, set_s4, W4, "s4 : W4", true),
    (s8, set_s8, W8, "s8 : W8", true),
    (s12, set_s12, W12, "s12 : W12", true),
    (s16, set_s16, W16, "s16 : W16", true),
    (s20, set_s20, W20, "s20 : W20", true);
    (v0, set_v0, start_v0, W0, "v0 : vector< W0 >", true),
    (v1, set_v1, start_v1, W1, "v1 : vector< W1 >", true),
    (v2, set_v2, start_v2, W2, "v2 : vector< W2 >", true),
    (v3, set_v3, start_v3, W3, "v3 : vector< W3 >", true),
    (v4, set_v4, start_v4, W4, "v4 : vector< W4 >", true),
    (v5, set_v5, start_v5, W5, "v5 : vector< W5 >", true),
    (v6, set_v6, start_v6, W6, "v6 : vector< W6 >", true),
    (v7, set_v7, start_v7, W7, "v7 : vector< W7 >", true),
    (v8, set_v8, start_v8, W8, "v8 : vector< W8 >", true),
    (v9, set_v9, start_v9, W9, "v9 : vector< W9 >", true),
    (v10, set_v10, start_v10, W10, "v10 : vector< W10 >", true),
    (v11, set_v11, start_v11, W11, "v11 : vector< W11 >", true),
    (v12, set_v12, start_v12, W12, "v12 : vector< W12 >", true),
    (v13, set_v13, start_v13, W13, "v13 : vector< W13 >", true),
    (v14, set_v14, start_v14, W14, "v14 : vector< W14 >", true),
    (v15, set_v15, start_v15, W15, "v15 : vector< W15 >", true),
    (v16, set_v16, start_v16, W16, "v16 : vector< W16 >", true),
    (v17, set_v17, start_v17, W17, "v17 : vector< W17 >", true),
    (v18, set_v18, start_v18, W18, "v18 : vector< W18 >", true),
    (v19, set_v19, start_v19, W19, "v19 : vector< W19 >", true),
    (v20, set_v20, start_v20, W20, "v20 : vector< W20 >", true),
    (v21, set_v21, start_v21, W21, "v21 : vector< W21 >", true),
    (v22, set_v22, start_v22, W22, "v22 : vector< W22 >", true),
    (v23, set_v23, start_v23, W23, "v23 : vector< W23 >", true);
    ;
    ;
);
