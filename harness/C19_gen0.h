// generated by tools/gen19.py
static void each1(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0]) }; l.check(c, "FOR_EACH", 1, v, r, sizeof r / sizeof *r, all(1)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0]))) == 1, "narg", 1); 
 { Log l; long r[] = { FOR_EACH_ODD(F1, v[0]) }; l.check(c, "FOR_EACH_ODD", 1, v, r, sizeof r / sizeof *r, sel(1, 0)); }
}
static void each2(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1]) }; l.check(c, "FOR_EACH", 2, v, r, sizeof r / sizeof *r, all(2)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1]))) == 2, "narg", 2); 
 { Log l; long r[] = { FOR_EACH_EVEN(F1, v[0], v[1]) }; l.check(c, "FOR_EACH_EVEN", 2, v, r, sizeof r / sizeof *r, sel(2, 1)); }
 { Log l; long r[] = { FOR_EACH_2ARGS(F2, v[0], v[1]) }; l.check2(c, "FOR_EACH_2ARGS", 2, v, r, sizeof r / sizeof *r, -1); }
 { Log l; long r[] = { FOR_EACH_3ARGS_1STAT(F3, v[40], v[0], v[1]) }; l.check2(c, "FOR_EACH_3ARGS_1STAT", 2, v, r, sizeof r / sizeof *r, v[40]); }
}
static void each3(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2]) }; l.check(c, "FOR_EACH", 3, v, r, sizeof r / sizeof *r, all(3)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2]))) == 3, "narg", 3); 
 { Log l; long r[] = { FOR_EACH_ODD(F1, v[0], v[1], v[2]) }; l.check(c, "FOR_EACH_ODD", 3, v, r, sizeof r / sizeof *r, sel(3, 0)); }
}
static void each4(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3]) }; l.check(c, "FOR_EACH", 4, v, r, sizeof r / sizeof *r, all(4)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3]))) == 4, "narg", 4); 
 { Log l; long r[] = { FOR_EACH_EVEN(F1, v[0], v[1], v[2], v[3]) }; l.check(c, "FOR_EACH_EVEN", 4, v, r, sizeof r / sizeof *r, sel(4, 1)); }
 { Log l; long r[] = { FOR_EACH_2ARGS(F2, v[0], v[1], v[2], v[3]) }; l.check2(c, "FOR_EACH_2ARGS", 4, v, r, sizeof r / sizeof *r, -1); }
 { Log l; long r[] = { FOR_EACH_3ARGS_1STAT(F3, v[40], v[0], v[1], v[2], v[3]) }; l.check2(c, "FOR_EACH_3ARGS_1STAT", 4, v, r, sizeof r / sizeof *r, v[40]); }
}
static void each5(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4]) }; l.check(c, "FOR_EACH", 5, v, r, sizeof r / sizeof *r, all(5)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4]))) == 5, "narg", 5); 
 { Log l; long r[] = { FOR_EACH_ODD(F1, v[0], v[1], v[2], v[3], v[4]) }; l.check(c, "FOR_EACH_ODD", 5, v, r, sizeof r / sizeof *r, sel(5, 0)); }
}
static void each6(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5]) }; l.check(c, "FOR_EACH", 6, v, r, sizeof r / sizeof *r, all(6)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5]))) == 6, "narg", 6); 
 { Log l; long r[] = { FOR_EACH_EVEN(F1, v[0], v[1], v[2], v[3], v[4], v[5]) }; l.check(c, "FOR_EACH_EVEN", 6, v, r, sizeof r / sizeof *r, sel(6, 1)); }
 { Log l; long r[] = { FOR_EACH_2ARGS(F2, v[0], v[1], v[2], v[3], v[4], v[5]) }; l.check2(c, "FOR_EACH_2ARGS", 6, v, r, sizeof r / sizeof *r, -1); }
 { Log l; long r[] = { FOR_EACH_3ARGS_1STAT(F3, v[40], v[0], v[1], v[2], v[3], v[4], v[5]) }; l.check2(c, "FOR_EACH_3ARGS_1STAT", 6, v, r, sizeof r / sizeof *r, v[40]); }
}
static void each7(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6]) }; l.check(c, "FOR_EACH", 7, v, r, sizeof r / sizeof *r, all(7)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6]))) == 7, "narg", 7); 
 { Log l; long r[] = { FOR_EACH_ODD(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6]) }; l.check(c, "FOR_EACH_ODD", 7, v, r, sizeof r / sizeof *r, sel(7, 0)); }
}
static void each8(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]) }; l.check(c, "FOR_EACH", 8, v, r, sizeof r / sizeof *r, all(8)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]))) == 8, "narg", 8); 
 { Log l; long r[] = { FOR_EACH_EVEN(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]) }; l.check(c, "FOR_EACH_EVEN", 8, v, r, sizeof r / sizeof *r, sel(8, 1)); }
 { Log l; long r[] = { FOR_EACH_2ARGS(F2, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]) }; l.check2(c, "FOR_EACH_2ARGS", 8, v, r, sizeof r / sizeof *r, -1); }
 { Log l; long r[] = { FOR_EACH_3ARGS_1STAT(F3, v[40], v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]) }; l.check2(c, "FOR_EACH_3ARGS_1STAT", 8, v, r, sizeof r / sizeof *r, v[40]); }
}
static void each9(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]) }; l.check(c, "FOR_EACH", 9, v, r, sizeof r / sizeof *r, all(9)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]))) == 9, "narg", 9); 
 { Log l; long r[] = { FOR_EACH_ODD(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]) }; l.check(c, "FOR_EACH_ODD", 9, v, r, sizeof r / sizeof *r, sel(9, 0)); }
}
static void each10(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]) }; l.check(c, "FOR_EACH", 10, v, r, sizeof r / sizeof *r, all(10)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]))) == 10, "narg", 10); 
 { Log l; long r[] = { FOR_EACH_EVEN(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]) }; l.check(c, "FOR_EACH_EVEN", 10, v, r, sizeof r / sizeof *r, sel(10, 1)); }
 { Log l; long r[] = { FOR_EACH_2ARGS(F2, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]) }; l.check2(c, "FOR_EACH_2ARGS", 10, v, r, sizeof r / sizeof *r, -1); }
 { Log l; long r[] = { FOR_EACH_3ARGS_1STAT(F3, v[40], v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]) }; l.check2(c, "FOR_EACH_3ARGS_1STAT", 10, v, r, sizeof r / sizeof *r, v[40]); }
}
static void each11(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10]) }; l.check(c, "FOR_EACH", 11, v, r, sizeof r / sizeof *r, all(11)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10]))) == 11, "narg", 11); 
 { Log l; long r[] = { FOR_EACH_ODD(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10]) }; l.check(c, "FOR_EACH_ODD", 11, v, r, sizeof r / sizeof *r, sel(11, 0)); }
}
static void each12(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]) }; l.check(c, "FOR_EACH", 12, v, r, sizeof r / sizeof *r, all(12)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]))) == 12, "narg", 12); 
 { Log l; long r[] = { FOR_EACH_EVEN(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]) }; l.check(c, "FOR_EACH_EVEN", 12, v, r, sizeof r / sizeof *r, sel(12, 1)); }
 { Log l; long r[] = { FOR_EACH_2ARGS(F2, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]) }; l.check2(c, "FOR_EACH_2ARGS", 12, v, r, sizeof r / sizeof *r, -1); }
 { Log l; long r[] = { FOR_EACH_3ARGS_1STAT(F3, v[40], v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]) }; l.check2(c, "FOR_EACH_3ARGS_1STAT", 12, v, r, sizeof r / sizeof *r, v[40]); }
}
static void each13(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12]) }; l.check(c, "FOR_EACH", 13, v, r, sizeof r / sizeof *r, all(13)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12]))) == 13, "narg", 13); 
 { Log l; long r[] = { FOR_EACH_ODD(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12]) }; l.check(c, "FOR_EACH_ODD", 13, v, r, sizeof r / sizeof *r, sel(13, 0)); }
}
static void each14(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13]) }; l.check(c, "FOR_EACH", 14, v, r, sizeof r / sizeof *r, all(14)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13]))) == 14, "narg", 14); 
 { Log l; long r[] = { FOR_EACH_EVEN(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13]) }; l.check(c, "FOR_EACH_EVEN", 14, v, r, sizeof r / sizeof *r, sel(14, 1)); }
 { Log l; long r[] = { FOR_EACH_2ARGS(F2, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13]) }; l.check2(c, "FOR_EACH_2ARGS", 14, v, r, sizeof r / sizeof *r, -1); }
 { Log l; long r[] = { FOR_EACH_3ARGS_1STAT(F3, v[40], v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13]) }; l.check2(c, "FOR_EACH_3ARGS_1STAT", 14, v, r, sizeof r / sizeof *r, v[40]); }
}
static void each15(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14]) }; l.check(c, "FOR_EACH", 15, v, r, sizeof r / sizeof *r, all(15)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14]))) == 15, "narg", 15); 
 { Log l; long r[] = { FOR_EACH_ODD(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14]) }; l.check(c, "FOR_EACH_ODD", 15, v, r, sizeof r / sizeof *r, sel(15, 0)); }
}
static void each16(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15]) }; l.check(c, "FOR_EACH", 16, v, r, sizeof r / sizeof *r, all(16)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15]))) == 16, "narg", 16); 
 { Log l; long r[] = { FOR_EACH_EVEN(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15]) }; l.check(c, "FOR_EACH_EVEN", 16, v, r, sizeof r / sizeof *r, sel(16, 1)); }
 { Log l; long r[] = { FOR_EACH_2ARGS(F2, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15]) }; l.check2(c, "FOR_EACH_2ARGS", 16, v, r, sizeof r / sizeof *r, -1); }
 { Log l; long r[] = { FOR_EACH_3ARGS_1STAT(F3, v[40], v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15]) }; l.check2(c, "FOR_EACH_3ARGS_1STAT", 16, v, r, sizeof r / sizeof *r, v[40]); }
}
static void each17(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16]) }; l.check(c, "FOR_EACH", 17, v, r, sizeof r / sizeof *r, all(17)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16]))) == 17, "narg", 17); 
 { Log l; long r[] = { FOR_EACH_ODD(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16]) }; l.check(c, "FOR_EACH_ODD", 17, v, r, sizeof r / sizeof *r, sel(17, 0)); }
}
static void each18(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17]) }; l.check(c, "FOR_EACH", 18, v, r, sizeof r / sizeof *r, all(18)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17]))) == 18, "narg", 18); 
 { Log l; long r[] = { FOR_EACH_EVEN(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17]) }; l.check(c, "FOR_EACH_EVEN", 18, v, r, sizeof r / sizeof *r, sel(18, 1)); }
 { Log l; long r[] = { FOR_EACH_2ARGS(F2, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17]) }; l.check2(c, "FOR_EACH_2ARGS", 18, v, r, sizeof r / sizeof *r, -1); }
 { Log l; long r[] = { FOR_EACH_3ARGS_1STAT(F3, v[40], v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17]) }; l.check2(c, "FOR_EACH_3ARGS_1STAT", 18, v, r, sizeof r / sizeof *r, v[40]); }
}
static void each19(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18]) }; l.check(c, "FOR_EACH", 19, v, r, sizeof r / sizeof *r, all(19)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18]))) == 19, "narg", 19); 
 { Log l; long r[] = { FOR_EACH_ODD(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18]) }; l.check(c, "FOR_EACH_ODD", 19, v, r, sizeof r / sizeof *r, sel(19, 0)); }
}
static void each20(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19]) }; l.check(c, "FOR_EACH", 20, v, r, sizeof r / sizeof *r, all(20)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19]))) == 20, "narg", 20); 
 { Log l; long r[] = { FOR_EACH_EVEN(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19]) }; l.check(c, "FOR_EACH_EVEN", 20, v, r, sizeof r / sizeof *r, sel(20, 1)); }
 { Log l; long r[] = { FOR_EACH_2ARGS(F2, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19]) }; l.check2(c, "FOR_EACH_2ARGS", 20, v, r, sizeof r / sizeof *r, -1); }
 { Log l; long r[] = { FOR_EACH_3ARGS_1STAT(F3, v[40], v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19]) }; l.check2(c, "FOR_EACH_3ARGS_1STAT", 20, v, r, sizeof r / sizeof *r, v[40]); }
}
static void each21(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20]) }; l.check(c, "FOR_EACH", 21, v, r, sizeof r / sizeof *r, all(21)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20]))) == 21, "narg", 21); 
 { Log l; long r[] = { FOR_EACH_ODD(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20]) }; l.check(c, "FOR_EACH_ODD", 21, v, r, sizeof r / sizeof *r, sel(21, 0)); }
}
static void each22(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21]) }; l.check(c, "FOR_EACH", 22, v, r, sizeof r / sizeof *r, all(22)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21]))) == 22, "narg", 22); 
 { Log l; long r[] = { FOR_EACH_EVEN(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21]) }; l.check(c, "FOR_EACH_EVEN", 22, v, r, sizeof r / sizeof *r, sel(22, 1)); }
 { Log l; long r[] = { FOR_EACH_2ARGS(F2, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21]) }; l.check2(c, "FOR_EACH_2ARGS", 22, v, r, sizeof r / sizeof *r, -1); }
 { Log l; long r[] = { FOR_EACH_3ARGS_1STAT(F3, v[40], v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21]) }; l.check2(c, "FOR_EACH_3ARGS_1STAT", 22, v, r, sizeof r / sizeof *r, v[40]); }
}
static void each23(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22]) }; l.check(c, "FOR_EACH", 23, v, r, sizeof r / sizeof *r, all(23)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22]))) == 23, "narg", 23); 
 { Log l; long r[] = { FOR_EACH_ODD(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22]) }; l.check(c, "FOR_EACH_ODD", 23, v, r, sizeof r / sizeof *r, sel(23, 0)); }
}
static void each24(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23]) }; l.check(c, "FOR_EACH", 24, v, r, sizeof r / sizeof *r, all(24)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23]))) == 24, "narg", 24); 
 { Log l; long r[] = { FOR_EACH_EVEN(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23]) }; l.check(c, "FOR_EACH_EVEN", 24, v, r, sizeof r / sizeof *r, sel(24, 1)); }
 { Log l; long r[] = { FOR_EACH_2ARGS(F2, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23]) }; l.check2(c, "FOR_EACH_2ARGS", 24, v, r, sizeof r / sizeof *r, -1); }
 { Log l; long r[] = { FOR_EACH_3ARGS_1STAT(F3, v[40], v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23]) }; l.check2(c, "FOR_EACH_3ARGS_1STAT", 24, v, r, sizeof r / sizeof *r, v[40]); }
}
static void each25(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24]) }; l.check(c, "FOR_EACH", 25, v, r, sizeof r / sizeof *r, all(25)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24]))) == 25, "narg", 25); 
 { Log l; long r[] = { FOR_EACH_ODD(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24]) }; l.check(c, "FOR_EACH_ODD", 25, v, r, sizeof r / sizeof *r, sel(25, 0)); }
}
static void each26(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25]) }; l.check(c, "FOR_EACH", 26, v, r, sizeof r / sizeof *r, all(26)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25]))) == 26, "narg", 26); 
 { Log l; long r[] = { FOR_EACH_EVEN(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25]) }; l.check(c, "FOR_EACH_EVEN", 26, v, r, sizeof r / sizeof *r, sel(26, 1)); }
 { Log l; long r[] = { FOR_EACH_2ARGS(F2, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25]) }; l.check2(c, "FOR_EACH_2ARGS", 26, v, r, sizeof r / sizeof *r, -1); }
 { Log l; long r[] = { FOR_EACH_3ARGS_1STAT(F3, v[40], v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25]) }; l.check2(c, "FOR_EACH_3ARGS_1STAT", 26, v, r, sizeof r / sizeof *r, v[40]); }
}
static void each27(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26]) }; l.check(c, "FOR_EACH", 27, v, r, sizeof r / sizeof *r, all(27)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26]))) == 27, "narg", 27); 
 { Log l; long r[] = { FOR_EACH_ODD(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26]) }; l.check(c, "FOR_EACH_ODD", 27, v, r, sizeof r / sizeof *r, sel(27, 0)); }
}
static void each28(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27]) }; l.check(c, "FOR_EACH", 28, v, r, sizeof r / sizeof *r, all(28)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27]))) == 28, "narg", 28); 
 { Log l; long r[] = { FOR_EACH_EVEN(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27]) }; l.check(c, "FOR_EACH_EVEN", 28, v, r, sizeof r / sizeof *r, sel(28, 1)); }
 { Log l; long r[] = { FOR_EACH_2ARGS(F2, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27]) }; l.check2(c, "FOR_EACH_2ARGS", 28, v, r, sizeof r / sizeof *r, -1); }
 { Log l; long r[] = { FOR_EACH_3ARGS_1STAT(F3, v[40], v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27]) }; l.check2(c, "FOR_EACH_3ARGS_1STAT", 28, v, r, sizeof r / sizeof *r, v[40]); }
}
static void each29(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28]) }; l.check(c, "FOR_EACH", 29, v, r, sizeof r / sizeof *r, all(29)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28]))) == 29, "narg", 29); 
 { Log l; long r[] = { FOR_EACH_ODD(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28]) }; l.check(c, "FOR_EACH_ODD", 29, v, r, sizeof r / sizeof *r, sel(29, 0)); }
}
static void each30(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29]) }; l.check(c, "FOR_EACH", 30, v, r, sizeof r / sizeof *r, all(30)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29]))) == 30, "narg", 30); 
 { Log l; long r[] = { FOR_EACH_EVEN(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29]) }; l.check(c, "FOR_EACH_EVEN", 30, v, r, sizeof r / sizeof *r, sel(30, 1)); }
 { Log l; long r[] = { FOR_EACH_2ARGS(F2, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29]) }; l.check2(c, "FOR_EACH_2ARGS", 30, v, r, sizeof r / sizeof *r, -1); }
 { Log l; long r[] = { FOR_EACH_3ARGS_1STAT(F3, v[40], v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29]) }; l.check2(c, "FOR_EACH_3ARGS_1STAT", 30, v, r, sizeof r / sizeof *r, v[40]); }
}
static void each31(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30]) }; l.check(c, "FOR_EACH", 31, v, r, sizeof r / sizeof *r, all(31)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30]))) == 31, "narg", 31); 
 { Log l; long r[] = { FOR_EACH_ODD(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30]) }; l.check(c, "FOR_EACH_ODD", 31, v, r, sizeof r / sizeof *r, sel(31, 0)); }
}
static void each32(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31]) }; l.check(c, "FOR_EACH", 32, v, r, sizeof r / sizeof *r, all(32)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31]))) == 32, "narg", 32); 
 { Log l; long r[] = { FOR_EACH_EVEN(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31]) }; l.check(c, "FOR_EACH_EVEN", 32, v, r, sizeof r / sizeof *r, sel(32, 1)); }
 { Log l; long r[] = { FOR_EACH_2ARGS(F2, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31]) }; l.check2(c, "FOR_EACH_2ARGS", 32, v, r, sizeof r / sizeof *r, -1); }
 { Log l; long r[] = { FOR_EACH_3ARGS_1STAT(F3, v[40], v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31]) }; l.check2(c, "FOR_EACH_3ARGS_1STAT", 32, v, r, sizeof r / sizeof *r, v[40]); }
}
static void each33(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32]) }; l.check(c, "FOR_EACH", 33, v, r, sizeof r / sizeof *r, all(33)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32]))) == 33, "narg", 33); 
 { Log l; long r[] = { FOR_EACH_ODD(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32]) }; l.check(c, "FOR_EACH_ODD", 33, v, r, sizeof r / sizeof *r, sel(33, 0)); }
}
static void each34(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33]) }; l.check(c, "FOR_EACH", 34, v, r, sizeof r / sizeof *r, all(34)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33]))) == 34, "narg", 34); 
 { Log l; long r[] = { FOR_EACH_EVEN(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33]) }; l.check(c, "FOR_EACH_EVEN", 34, v, r, sizeof r / sizeof *r, sel(34, 1)); }
 { Log l; long r[] = { FOR_EACH_2ARGS(F2, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33]) }; l.check2(c, "FOR_EACH_2ARGS", 34, v, r, sizeof r / sizeof *r, -1); }
 { Log l; long r[] = { FOR_EACH_3ARGS_1STAT(F3, v[40], v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33]) }; l.check2(c, "FOR_EACH_3ARGS_1STAT", 34, v, r, sizeof r / sizeof *r, v[40]); }
}
static void each35(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33], v[34]) }; l.check(c, "FOR_EACH", 35, v, r, sizeof r / sizeof *r, all(35)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33], v[34]))) == 35, "narg", 35); 
 { Log l; long r[] = { FOR_EACH_ODD(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33], v[34]) }; l.check(c, "FOR_EACH_ODD", 35, v, r, sizeof r / sizeof *r, sel(35, 0)); }
}
static void each36(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33], v[34], v[35]) }; l.check(c, "FOR_EACH", 36, v, r, sizeof r / sizeof *r, all(36)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33], v[34], v[35]))) == 36, "narg", 36); 
 { Log l; long r[] = { FOR_EACH_EVEN(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33], v[34], v[35]) }; l.check(c, "FOR_EACH_EVEN", 36, v, r, sizeof r / sizeof *r, sel(36, 1)); }
 { Log l; long r[] = { FOR_EACH_2ARGS(F2, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33], v[34], v[35]) }; l.check2(c, "FOR_EACH_2ARGS", 36, v, r, sizeof r / sizeof *r, -1); }
 { Log l; long r[] = { FOR_EACH_3ARGS_1STAT(F3, v[40], v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33], v[34], v[35]) }; l.check2(c, "FOR_EACH_3ARGS_1STAT", 36, v, r, sizeof r / sizeof *r, v[40]); }
}
static void each37(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33], v[34], v[35], v[36]) }; l.check(c, "FOR_EACH", 37, v, r, sizeof r / sizeof *r, all(37)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33], v[34], v[35], v[36]))) == 37, "narg", 37); 
 { Log l; long r[] = { FOR_EACH_ODD(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33], v[34], v[35], v[36]) }; l.check(c, "FOR_EACH_ODD", 37, v, r, sizeof r / sizeof *r, sel(37, 0)); }
}
static void each38(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33], v[34], v[35], v[36], v[37]) }; l.check(c, "FOR_EACH", 38, v, r, sizeof r / sizeof *r, all(38)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33], v[34], v[35], v[36], v[37]))) == 38, "narg", 38); 
 { Log l; long r[] = { FOR_EACH_EVEN(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33], v[34], v[35], v[36], v[37]) }; l.check(c, "FOR_EACH_EVEN", 38, v, r, sizeof r / sizeof *r, sel(38, 1)); }
 { Log l; long r[] = { FOR_EACH_2ARGS(F2, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33], v[34], v[35], v[36], v[37]) }; l.check2(c, "FOR_EACH_2ARGS", 38, v, r, sizeof r / sizeof *r, -1); }
 { Log l; long r[] = { FOR_EACH_3ARGS_1STAT(F3, v[40], v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33], v[34], v[35], v[36], v[37]) }; l.check2(c, "FOR_EACH_3ARGS_1STAT", 38, v, r, sizeof r / sizeof *r, v[40]); }
}
static void each39(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33], v[34], v[35], v[36], v[37], v[38]) }; l.check(c, "FOR_EACH", 39, v, r, sizeof r / sizeof *r, all(39)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33], v[34], v[35], v[36], v[37], v[38]))) == 39, "narg", 39); 
 { Log l; long r[] = { FOR_EACH_ODD(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33], v[34], v[35], v[36], v[37], v[38]) }; l.check(c, "FOR_EACH_ODD", 39, v, r, sizeof r / sizeof *r, sel(39, 0)); }
}
static void each40(vh::Case& c, const long* v) { { Log l; long r[] = { FOR_EACH(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33], v[34], v[35], v[36], v[37], v[38], v[39]) }; l.check(c, "FOR_EACH", 40, v, r, sizeof r / sizeof *r, all(40)); } VH_CHECK(c, narg(STR(FOR_EACH_NARG(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33], v[34], v[35], v[36], v[37], v[38], v[39]))) == 40, "narg", 40); 
 { Log l; long r[] = { FOR_EACH_EVEN(F1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33], v[34], v[35], v[36], v[37], v[38], v[39]) }; l.check(c, "FOR_EACH_EVEN", 40, v, r, sizeof r / sizeof *r, sel(40, 1)); }
 { Log l; long r[] = { FOR_EACH_2ARGS(F2, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33], v[34], v[35], v[36], v[37], v[38], v[39]) }; l.check2(c, "FOR_EACH_2ARGS", 40, v, r, sizeof r / sizeof *r, -1); }
 { Log l; long r[] = { FOR_EACH_3ARGS_1STAT(F3, v[40], v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33], v[34], v[35], v[36], v[37], v[38], v[39]) }; l.check2(c, "FOR_EACH_3ARGS_1STAT", 40, v, r, sizeof r / sizeof *r, v[40]); }
}
static void (*const eaches[])(vh::Case&, const long*) = { each1, each2, each3, each4, each5, each6, each7, each8, each9, each10, each11, each12, each13, each14, each15, each16, each17, each18, each19, each20, each21, each22, each23, each24, each25, each26, each27, each28, each29, each30, each31, each32, each33, each34, each35, each36, each37, each38, each39, each40 };
static void sequences(vh::Case& c) {
 { typedef make_custom_integer_sequence_t<size_t, 13, 25, 1> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<size_t, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25>>::value), "sequence", "13..25 step 1"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<short, -2, -10, -1> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<short, -2, -3, -4, -5, -6, -7, -8, -9, -10>>::value), "sequence", "-2..-10 step -1"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<int, -4, 14, 2> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<int, -4, -2, 0, 2, 4, 6, 8, 10, 12, 14>>::value), "sequence", "-4..14 step 2"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<int, 0, 30, 5> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<int, 0, 5, 10, 15, 20, 25, 30>>::value), "sequence", "0..30 step 5"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<short, -19, -23, -1> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<short, -19, -20, -21, -22, -23>>::value), "sequence", "-19..-23 step -1"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<int, -8, -5, 3> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<int, -8, -5>>::value), "sequence", "-8..-5 step 3"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<short, 4, -17, -3> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<short, 4, 1, -2, -5, -8, -11, -14, -17>>::value), "sequence", "4..-17 step -3"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<long, -14, -2, 1> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<long, -14, -13, -12, -11, -10, -9, -8, -7, -6, -5, -4, -3, -2>>::value), "sequence", "-14..-2 step 1"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<long, 5, -7, -1> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<long, 5, 4, 3, 2, 1, 0, -1, -2, -3, -4, -5, -6, -7>>::value), "sequence", "5..-7 step -1"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<size_t, 12, 57, 5> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<size_t, 12, 17, 22, 27, 32, 37, 42, 47, 52, 57>>::value), "sequence", "12..57 step 5"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<short, 14, 11, -1> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<short, 14, 13, 12, 11>>::value), "sequence", "14..11 step -1"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<long, -7, 5, 1> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<long, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5>>::value), "sequence", "-7..5 step 1"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<size_t, 11, 31, 2> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<size_t, 11, 13, 15, 17, 19, 21, 23, 25, 27, 29, 31>>::value), "sequence", "11..31 step 2"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<long, 9, 9, -2> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<long, 9>>::value), "sequence", "9..9 step -2"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<unsigned, 10, 18, 1> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<unsigned, 10, 11, 12, 13, 14, 15, 16, 17, 18>>::value), "sequence", "10..18 step 1"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<int, -20, -26, -3> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<int, -20, -23, -26>>::value), "sequence", "-20..-26 step -3"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<unsigned, 9, 9, 1> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<unsigned, 9>>::value), "sequence", "9..9 step 1"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<unsigned, 10, 20, 5> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<unsigned, 10, 15, 20>>::value), "sequence", "10..20 step 5"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<long, -10, -14, -1> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<long, -10, -11, -12, -13, -14>>::value), "sequence", "-10..-14 step -1"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<short, -1, -9, -2> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<short, -1, -3, -5, -7, -9>>::value), "sequence", "-1..-9 step -2"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<long, -7, -6> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<long, -7, -6>>::value), "sequence", "-7..-6 step 1"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<int, 9, 8, -1> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<int, 9, 8>>::value), "sequence", "9..8 step -1"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<short, 8, -8, -2> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<short, 8, 6, 4, 2, 0, -2, -4, -6, -8>>::value), "sequence", "8..-8 step -2"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<unsigned, 7, 9, 1> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<unsigned, 7, 8, 9>>::value), "sequence", "7..9 step 1"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<unsigned, 7, 11, 2> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<unsigned, 7, 9, 11>>::value), "sequence", "7..11 step 2"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<size_t, 19, 22> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<size_t, 19, 20, 21, 22>>::value), "sequence", "19..22 step 1"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<int, 20, 10, -1> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<int, 20, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10>>::value), "sequence", "20..10 step -1"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<unsigned, 19, 25> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<unsigned, 19, 20, 21, 22, 23, 24, 25>>::value), "sequence", "19..25 step 1"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<unsigned, 14, 23> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<unsigned, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23>>::value), "sequence", "14..23 step 1"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<int, 12, 24, 3> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<int, 12, 15, 18, 21, 24>>::value), "sequence", "12..24 step 3"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<short, -3, 9> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<short, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9>>::value), "sequence", "-3..9 step 1"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<short, -2, 1, 1> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<short, -2, -1, 0, 1>>::value), "sequence", "-2..1 step 1"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<short, 0, -6, -3> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<short, 0, -3, -6>>::value), "sequence", "0..-6 step -3"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<short, -1, 39, 5> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<short, -1, 4, 9, 14, 19, 24, 29, 34, 39>>::value), "sequence", "-1..39 step 5"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<short, 12, 0, -3> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<short, 12, 9, 6, 3, 0>>::value), "sequence", "12..0 step -3"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<int, -17, -24, -1> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<int, -17, -18, -19, -20, -21, -22, -23, -24>>::value), "sequence", "-17..-24 step -1"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<size_t, 9, 9, 2> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<size_t, 9>>::value), "sequence", "9..9 step 2"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<unsigned, 9, 13> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<unsigned, 9, 10, 11, 12, 13>>::value), "sequence", "9..13 step 1"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<long, -9, -14, -1> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<long, -9, -10, -11, -12, -13, -14>>::value), "sequence", "-9..-14 step -1"); c.ev("sequences"); }
 { typedef make_custom_integer_sequence_t<short, -14, -25, -1> Q; VH_CHECK(c, (std::is_same<Q, std::integer_sequence<short, -14, -15, -16, -17, -18, -19, -20, -21, -22, -23, -24, -25>>::value), "sequence", "-14..-25 step -1"); c.ev("sequences"); }
}
static void loops(vh::Case& c, const long* v) {
 { Log l; ConstexprFor<14, 27, 5>::exec<Visit>(l, v); l.loop(c, "ConstexprFor<14, 27, 5>::exec<Visit>(l, v)", v, {14, 19, 24}); }
 { Log l; constexprFor<Visit, 27>(l, v); l.loop(c, "constexprFor<Visit, 27>(l, v)", v, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26}); }
 { Log l; constexprFor<Visit, 2, 12>(l, v); l.loop(c, "constexprFor<Visit, 2, 12>(l, v)", v, {2, 3, 4, 5, 6, 7, 8, 9, 10, 11}); }
 { Log l; constexprFor<Visit, 25, 11, size_t(-1)>(l, v); l.loop(c, "constexprFor<Visit, 25, 11, size_t(-1)>(l, v)", v, {25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12}); }
 { Log l; ConstexprFor<11, 12, 3>::exec<Visit>(l, v); l.loop(c, "ConstexprFor<11, 12, 3>::exec<Visit>(l, v)", v, {11}); }
 { Log l; constexprFor<Visit, 8, 10>(l, v); l.loop(c, "constexprFor<Visit, 8, 10>(l, v)", v, {8, 9}); }
 { Log l; constexprFor<Visit, 12, 13, 2>(l, v); l.loop(c, "constexprFor<Visit, 12, 13, 2>(l, v)", v, {12}); }
 { Log l; constexprFor<Visit, 15, 32, 1>(l, v); l.loop(c, "constexprFor<Visit, 15, 32, 1>(l, v)", v, {15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31}); }
 { Log l; ConstexprFor<16, 18, 1>::exec<Visit>(l, v); l.loop(c, "ConstexprFor<16, 18, 1>::exec<Visit>(l, v)", v, {16, 17}); }
 { Log l; ConstexprFor<13, 14, 6>::exec<Visit>(l, v); l.loop(c, "ConstexprFor<13, 14, 6>::exec<Visit>(l, v)", v, {13}); }
 { Log l; constexprFor<Visit, 19, 29, 2>(l, v); l.loop(c, "constexprFor<Visit, 19, 29, 2>(l, v)", v, {19, 21, 23, 25, 27}); }
 { Log l; ConstexprFor<17, 18, 3>::exec<Visit>(l, v); l.loop(c, "ConstexprFor<17, 18, 3>::exec<Visit>(l, v)", v, {17}); }
 { Log l; constexprFor<Visit, 4, 11, 3>(l, v); l.loop(c, "constexprFor<Visit, 4, 11, 3>(l, v)", v, {4, 7, 10}); }
 { Log l; constexprFor<Visit, 18>(l, v); l.loop(c, "constexprFor<Visit, 18>(l, v)", v, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17}); }
 { Log l; constexprFor<Visit, 6, 4, size_t(-1)>(l, v); l.loop(c, "constexprFor<Visit, 6, 4, size_t(-1)>(l, v)", v, {6, 5}); }
 { Log l; constexprFor<Visit, 21, 9, size_t(-1)>(l, v); l.loop(c, "constexprFor<Visit, 21, 9, size_t(-1)>(l, v)", v, {21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10}); }
 { Log l; ConstexprFor<7, 18, 6>::exec<Visit>(l, v); l.loop(c, "ConstexprFor<7, 18, 6>::exec<Visit>(l, v)", v, {7, 13}); }
 { Log l; constexprFor<Visit, 21>(l, v); l.loop(c, "constexprFor<Visit, 21>(l, v)", v, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}); }
 { Log l; constexprFor<Visit, 8, 12, 3>(l, v); l.loop(c, "constexprFor<Visit, 8, 12, 3>(l, v)", v, {8, 11}); }
 { Log l; constexprFor<Visit, 24, 17, size_t(-1)>(l, v); l.loop(c, "constexprFor<Visit, 24, 17, size_t(-1)>(l, v)", v, {24, 23, 22, 21, 20, 19, 18}); }
 { Log l; ConstexprFor<14, 23, 1>::exec<Visit>(l, v); l.loop(c, "ConstexprFor<14, 23, 1>::exec<Visit>(l, v)", v, {14, 15, 16, 17, 18, 19, 20, 21, 22}); }
 { Log l; ConstexprFor<14, 17, 2>::exec<Visit>(l, v); l.loop(c, "ConstexprFor<14, 17, 2>::exec<Visit>(l, v)", v, {14, 16}); }
 { Log l; ConstexprFor<2, 17, 2>::exec<Visit>(l, v); l.loop(c, "ConstexprFor<2, 17, 2>::exec<Visit>(l, v)", v, {2, 4, 6, 8, 10, 12, 14, 16}); }
 { Log l; constexprFor<Visit, 24, 16, size_t(-1)>(l, v); l.loop(c, "constexprFor<Visit, 24, 16, size_t(-1)>(l, v)", v, {24, 23, 22, 21, 20, 19, 18, 17}); }
 { Log l; constexprFor<Visit, 25, 11, size_t(-1)>(l, v); l.loop(c, "constexprFor<Visit, 25, 11, size_t(-1)>(l, v)", v, {25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12}); }
 { Log l; constexprFor<Visit, 16>(l, v); l.loop(c, "constexprFor<Visit, 16>(l, v)", v, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}); }
 { Log l; constexprFor<Visit, 7, 0, size_t(-1)>(l, v); l.loop(c, "constexprFor<Visit, 7, 0, size_t(-1)>(l, v)", v, {7, 6, 5, 4, 3, 2, 1}); }
 { Log l; constexprFor<Visit, 17, 24>(l, v); l.loop(c, "constexprFor<Visit, 17, 24>(l, v)", v, {17, 18, 19, 20, 21, 22, 23}); }
 { Log l; constexprFor<Visit, 25>(l, v); l.loop(c, "constexprFor<Visit, 25>(l, v)", v, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24}); }
 { Log l; constexprFor<Visit, 17, 13, size_t(-1)>(l, v); l.loop(c, "constexprFor<Visit, 17, 13, size_t(-1)>(l, v)", v, {17, 16, 15, 14}); }
 { Log l; ConstexprFor<7, 11, 4>::exec<Visit>(l, v); l.loop(c, "ConstexprFor<7, 11, 4>::exec<Visit>(l, v)", v, {7}); }
 { Log l; constexprFor<Visit, 19, 34, 1>(l, v); l.loop(c, "constexprFor<Visit, 19, 34, 1>(l, v)", v, {19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33}); }
 { Log l; constexprFor<Visit, 12, 26>(l, v); l.loop(c, "constexprFor<Visit, 12, 26>(l, v)", v, {12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25}); }
 { Log l; ConstexprFor<2, 20, 6>::exec<Visit>(l, v); l.loop(c, "ConstexprFor<2, 20, 6>::exec<Visit>(l, v)", v, {2, 8, 14}); }
 { Log l; constexprFor<Visit, 23>(l, v); l.loop(c, "constexprFor<Visit, 23>(l, v)", v, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22}); }
 { Log l; constexprFor<Visit, 2, 10, 2>(l, v); l.loop(c, "constexprFor<Visit, 2, 10, 2>(l, v)", v, {2, 4, 6, 8}); }
 { Log l; constexprFor<Visit, 17, 5, size_t(-1)>(l, v); l.loop(c, "constexprFor<Visit, 17, 5, size_t(-1)>(l, v)", v, {17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6}); }
 { Log l; constexprFor<Visit, 14, 27>(l, v); l.loop(c, "constexprFor<Visit, 14, 27>(l, v)", v, {14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26}); }
 { Log l; constexprFor<Visit, 4>(l, v); l.loop(c, "constexprFor<Visit, 4>(l, v)", v, {0, 1, 2, 3}); }
 { Log l; constexprFor<Visit, 5>(l, v); l.loop(c, "constexprFor<Visit, 5>(l, v)", v, {0, 1, 2, 3, 4}); }
}
static void selects(vh::Case& c) {
 { typedef ClassSelector<Var<0>, Fits, Cand<0, 0>, Cand<1, 250>, Cand<2, 0>, Cand<3, 0>, Cand<4, 36>, Cand<5, 0>, Cand<6, 0>>::SelectedClass S; VH_CHECK(c, S::id == 6, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<6>, Fits, Cand<0, 0>, Cand<1, 0>>::SelectedClass S; VH_CHECK(c, S::id == 1, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<7>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 0>, Cand<3, 0>, Cand<4, 0>, Cand<5, 59>, Cand<6, 0>, Cand<7, 0>>::SelectedClass S; VH_CHECK(c, S::id == 7, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<6>, Fits, Cand<0, 0>, Cand<1, 0>>::SelectedClass S; VH_CHECK(c, S::id == 1, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<6>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 12>, Cand<3, 0>, Cand<4, 0>, Cand<5, 85>>::SelectedClass S; VH_CHECK(c, S::id == 5, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<7>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 84>>::SelectedClass S; VH_CHECK(c, S::id == 2, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<4>, Fits, Cand<0, 106>, Cand<1, 37>, Cand<2, 0>, Cand<3, 0>, Cand<4, 77>, Cand<5, 0>, Cand<6, 21>>::SelectedClass S; VH_CHECK(c, S::id == 6, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<7>, Fits, Cand<0, 0>, Cand<1, 95>, Cand<2, 33>, Cand<3, 207>, Cand<4, 12>>::SelectedClass S; VH_CHECK(c, S::id == 3, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<0>, Fits, Cand<0, 0>, Cand<1, 198>, Cand<2, 0>, Cand<3, 0>, Cand<4, 0>>::SelectedClass S; VH_CHECK(c, S::id == 4, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<2>, Fits, Cand<0, 0>, Cand<1, 48>, Cand<2, 0>, Cand<3, 0>, Cand<4, 0>, Cand<5, 55>, Cand<6, 0>>::SelectedClass S; VH_CHECK(c, S::id == 5, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<5>, Fits, Cand<0, 0>>::SelectedClass S; VH_CHECK(c, S::id == 0, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<3>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 0>, Cand<3, 156>, Cand<4, 0>, Cand<5, 149>, Cand<6, 0>, Cand<7, 0>>::SelectedClass S; VH_CHECK(c, S::id == 3, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<5>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 17>, Cand<3, 0>, Cand<4, 179>, Cand<5, 0>>::SelectedClass S; VH_CHECK(c, S::id == 4, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<6>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 34>, Cand<3, 0>, Cand<4, 0>, Cand<5, 0>, Cand<6, 0>>::SelectedClass S; VH_CHECK(c, S::id == 6, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<3>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 0>, Cand<3, 0>, Cand<4, 0>, Cand<5, 0>, Cand<6, 0>, Cand<7, 68>>::SelectedClass S; VH_CHECK(c, S::id == 7, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<7>, Fits, Cand<0, 68>, Cand<1, 0>, Cand<2, 134>, Cand<3, 0>, Cand<4, 0>, Cand<5, 0>>::SelectedClass S; VH_CHECK(c, S::id == 2, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<2>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 0>, Cand<3, 0>>::SelectedClass S; VH_CHECK(c, S::id == 3, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<4>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 0>>::SelectedClass S; VH_CHECK(c, S::id == 2, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<4>, Fits, Cand<0, 133>, Cand<1, 71>, Cand<2, 0>, Cand<3, 0>, Cand<4, 0>>::SelectedClass S; VH_CHECK(c, S::id == 4, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<7>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 0>, Cand<3, 0>, Cand<4, 0>, Cand<5, 0>, Cand<6, 0>, Cand<7, 0>>::SelectedClass S; VH_CHECK(c, S::id == 7, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<2>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 222>>::SelectedClass S; VH_CHECK(c, S::id == 2, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<5>, Fits, Cand<0, 0>, Cand<1, 0>>::SelectedClass S; VH_CHECK(c, S::id == 1, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<5>, Fits, Cand<0, 73>, Cand<1, 198>, Cand<2, 0>>::SelectedClass S; VH_CHECK(c, S::id == 2, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<2>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 7>, Cand<3, 56>>::SelectedClass S; VH_CHECK(c, S::id == 2, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<6>, Fits, Cand<0, 211>, Cand<1, 23>, Cand<2, 46>, Cand<3, 40>, Cand<4, 0>, Cand<5, 168>, Cand<6, 0>>::SelectedClass S; VH_CHECK(c, S::id == 0, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<1>, Fits, Cand<0, 99>, Cand<1, 0>, Cand<2, 0>, Cand<3, 0>>::SelectedClass S; VH_CHECK(c, S::id == 0, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<7>, Fits, Cand<0, 0>, Cand<1, 115>, Cand<2, 0>, Cand<3, 0>, Cand<4, 124>, Cand<5, 77>, Cand<6, 0>, Cand<7, 0>>::SelectedClass S; VH_CHECK(c, S::id == 7, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<6>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 0>, Cand<3, 0>, Cand<4, 0>>::SelectedClass S; VH_CHECK(c, S::id == 4, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<3>, Fits, Cand<0, 0>, Cand<1, 71>, Cand<2, 62>, Cand<3, 0>, Cand<4, 0>, Cand<5, 0>>::SelectedClass S; VH_CHECK(c, S::id == 2, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<5>, Fits, Cand<0, 0>, Cand<1, 0>>::SelectedClass S; VH_CHECK(c, S::id == 1, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<7>, Fits, Cand<0, 44>, Cand<1, 0>, Cand<2, 112>>::SelectedClass S; VH_CHECK(c, S::id == 2, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<1>, Fits, Cand<0, 186>, Cand<1, 0>, Cand<2, 0>, Cand<3, 47>, Cand<4, 12>, Cand<5, 0>, Cand<6, 0>>::SelectedClass S; VH_CHECK(c, S::id == 0, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<1>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 0>, Cand<3, 57>, Cand<4, 58>, Cand<5, 0>>::SelectedClass S; VH_CHECK(c, S::id == 4, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<3>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 0>, Cand<3, 102>, Cand<4, 0>, Cand<5, 248>, Cand<6, 0>, Cand<7, 0>>::SelectedClass S; VH_CHECK(c, S::id == 5, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<4>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 0>>::SelectedClass S; VH_CHECK(c, S::id == 2, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<6>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 0>, Cand<3, 107>>::SelectedClass S; VH_CHECK(c, S::id == 3, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<2>, Fits, Cand<0, 0>, Cand<1, 58>, Cand<2, 0>, Cand<3, 0>>::SelectedClass S; VH_CHECK(c, S::id == 3, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<6>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 0>, Cand<3, 0>, Cand<4, 0>>::SelectedClass S; VH_CHECK(c, S::id == 4, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<5>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 0>, Cand<3, 113>, Cand<4, 203>, Cand<5, 119>, Cand<6, 0>, Cand<7, 0>>::SelectedClass S; VH_CHECK(c, S::id == 3, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<3>, Fits, Cand<0, 200>, Cand<1, 0>, Cand<2, 55>, Cand<3, 0>, Cand<4, 0>, Cand<5, 0>>::SelectedClass S; VH_CHECK(c, S::id == 0, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<6>, Fits, Cand<0, 0>, Cand<1, 222>>::SelectedClass S; VH_CHECK(c, S::id == 1, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<4>, Fits, Cand<0, 0>, Cand<1, 21>, Cand<2, 165>, Cand<3, 0>>::SelectedClass S; VH_CHECK(c, S::id == 1, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<5>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 0>, Cand<3, 0>>::SelectedClass S; VH_CHECK(c, S::id == 3, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<2>, Fits, Cand<0, 148>, Cand<1, 195>, Cand<2, 177>>::SelectedClass S; VH_CHECK(c, S::id == 0, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<5>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 139>, Cand<3, 0>, Cand<4, 0>, Cand<5, 30>, Cand<6, 232>>::SelectedClass S; VH_CHECK(c, S::id == 6, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<7>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 0>, Cand<3, 210>, Cand<4, 0>, Cand<5, 0>, Cand<6, 0>>::SelectedClass S; VH_CHECK(c, S::id == 3, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<2>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 0>, Cand<3, 80>, Cand<4, 193>, Cand<5, 181>, Cand<6, 0>, Cand<7, 0>>::SelectedClass S; VH_CHECK(c, S::id == 5, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<4>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 138>, Cand<3, 0>>::SelectedClass S; VH_CHECK(c, S::id == 3, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<5>, Fits, Cand<0, 0>, Cand<1, 221>>::SelectedClass S; VH_CHECK(c, S::id == 1, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<2>, Fits, Cand<0, 117>, Cand<1, 200>, Cand<2, 0>, Cand<3, 0>, Cand<4, 127>, Cand<5, 0>, Cand<6, 0>, Cand<7, 0>>::SelectedClass S; VH_CHECK(c, S::id == 0, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<3>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 0>, Cand<3, 80>, Cand<4, 0>, Cand<5, 0>>::SelectedClass S; VH_CHECK(c, S::id == 5, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<2>, Fits, Cand<0, 125>, Cand<1, 204>, Cand<2, 0>, Cand<3, 0>>::SelectedClass S; VH_CHECK(c, S::id == 0, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<6>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 131>, Cand<3, 0>, Cand<4, 75>>::SelectedClass S; VH_CHECK(c, S::id == 4, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<6>, Fits, Cand<0, 168>, Cand<1, 191>, Cand<2, 0>, Cand<3, 0>, Cand<4, 0>, Cand<5, 0>, Cand<6, 0>>::SelectedClass S; VH_CHECK(c, S::id == 6, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<7>, Fits, Cand<0, 0>, Cand<1, 87>, Cand<2, 82>, Cand<3, 12>, Cand<4, 115>, Cand<5, 0>, Cand<6, 0>, Cand<7, 0>>::SelectedClass S; VH_CHECK(c, S::id == 7, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<2>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 81>, Cand<3, 0>, Cand<4, 0>, Cand<5, 0>, Cand<6, 227>, Cand<7, 0>>::SelectedClass S; VH_CHECK(c, S::id == 7, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<3>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 70>, Cand<3, 0>, Cand<4, 119>, Cand<5, 0>, Cand<6, 148>, Cand<7, 0>>::SelectedClass S; VH_CHECK(c, S::id == 7, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<6>, Fits, Cand<0, 230>, Cand<1, 192>, Cand<2, 163>>::SelectedClass S; VH_CHECK(c, S::id == 0, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<6>, Fits, Cand<0, 174>, Cand<1, 0>>::SelectedClass S; VH_CHECK(c, S::id == 1, "select", S::id); c.ev("selections"); }
 { typedef ClassSelector<Var<4>, Fits, Cand<0, 0>, Cand<1, 0>, Cand<2, 0>, Cand<3, 16>, Cand<4, 0>, Cand<5, 190>, Cand<6, 0>, Cand<7, 0>>::SelectedClass S; VH_CHECK(c, S::id == 3, "select", S::id); c.ev("selections"); }
}
static void signatures(vh::Case& c) {
 struct Fn733848558 { Rec operator()(bool, bool, const Rec*, const std::string&, Rec&) const; };
 sig<Fn733848558, Rec, bool, bool, const Rec*, const std::string&, Rec&>(c);
 sig<double Rec::*, double, Rec&>(c);
 sig<std::pair<int, int>(int, const Rec*, void*), std::pair<int, int>, int, const Rec*, void*>(c);
 sig<Rec&(Rec::*)(bool, int, Rec&, int, Rec, bool), Rec&, Rec&, bool, int, Rec&, int, Rec, bool>(c);
 sig<bool(Rec::*)(Rec, Rec&&) const, bool, const Rec&, Rec, Rec&&>(c);
 sig<bool(const Rec*, Rec&&, const std::string&, int), bool, const Rec*, Rec&&, const std::string&, int>(c);
 sig<Rec&(bool, int, bool, const long, Rec&&, double, int), Rec&, bool, int, bool, long, Rec&&, double, int>(c);
 struct Fn129206027 { void* operator()(int, Rec, Rec&&, const long, std::vector<int>*); };
 sig<Fn129206027&&, void*, int, Rec, Rec&&, long, std::vector<int>*>(c);
 sig<std::pair<int, int>(Rec::*)(Rec&, Rec&), std::pair<int, int>, Rec&, Rec&, Rec&>(c);
 sig<int Rec::*, int, Rec&>(c);
 struct Fn515411715 { bool operator()(std::vector<int>*, const std::string&, Rec, const long, void*, std::vector<int>*, std::pair<int, int>) const; };
 sig<Fn515411715, bool, std::vector<int>*, const std::string&, Rec, long, void*, std::vector<int>*, std::pair<int, int>>(c);
 sig<std::vector<int>* Rec::*, std::vector<int>*, Rec&>(c);
 sig<bool(Rec::*)(const std::string&, const std::string&, const long, Rec, const Rec*, std::pair<int, int>, const std::string&, const std::string&) const, bool, const Rec&, const std::string&, const std::string&, long, Rec, const Rec*, std::pair<int, int>, const std::string&, const std::string&>(c);
 sig<Rec&(Rec::*)(std::pair<int, int>, const Rec*, void*, Rec, Rec&, Rec) const, Rec&, const Rec&, std::pair<int, int>, const Rec*, void*, Rec, Rec&, Rec>(c);
 struct Fn127115742 { Rec&& operator()(const long, void*, const Rec*, Rec, Rec&&, Rec, int); };
 sig<Fn127115742, Rec&&, long, void*, const Rec*, Rec, Rec&&, Rec, int>(c);
 sig<double(*)(const Rec*, const long), double, const Rec*, long>(c);
 struct Fn779426644 { bool operator()(const Rec*, std::pair<int, int>, double, int, bool, void*, void*); };
 sig<Fn779426644, bool, const Rec*, std::pair<int, int>, double, int, bool, void*, void*>(c);
 sig<void* Rec::*, void*, Rec&>(c);
 sig<double Rec::*, double, Rec&>(c);
 sig<std::vector<int>* Rec::*, std::vector<int>*, Rec&>(c);
 struct Fn248703122 { Rec&& operator()(Rec) const; };
 sig<Fn248703122, Rec&&, Rec>(c);
 struct Fn416276992 { std::pair<int, int> operator()(std::pair<int, int>, Rec&, std::pair<int, int>, Rec&&); };
 sig<Fn416276992, std::pair<int, int>, std::pair<int, int>, Rec&, std::pair<int, int>, Rec&&>(c);
 sig<void(Rec::*)(void*) const, void, const Rec&, void*>(c);
 sig<Rec(*)(const Rec*, double), Rec, const Rec*, double>(c);
 sig<void* Rec::*, void*, Rec&>(c);
 struct Fn466961493 { bool operator()(const std::string&, const long); };
 sig<Fn466961493, bool, const std::string&, long>(c);
 sig<Rec Rec::*, Rec, Rec&>(c);
 sig<const Rec* Rec::*, const Rec*, Rec&>(c);
 struct Fn189885302 { std::pair<int, int> operator()(Rec&&, Rec&&, const std::string&, Rec, Rec&, double) const; };
 sig<Fn189885302, std::pair<int, int>, Rec&&, Rec&&, const std::string&, Rec, Rec&, double>(c);
 sig<Rec&&(Rec::*)(Rec&&, Rec&&, int, Rec, Rec, bool) const, Rec&&, const Rec&, Rec&&, Rec&&, int, Rec, Rec, bool>(c);
 sig<Rec&(double, Rec&&, const Rec*, std::pair<int, int>, Rec&&, void*, void*, const std::string&), Rec&, double, Rec&&, const Rec*, std::pair<int, int>, Rec&&, void*, void*, const std::string&>(c);
 struct Fn29801214 { Rec&& operator()(bool, const long, Rec&, const std::string&, const std::string&, std::vector<int>*, double, Rec&&) const; };
 sig<Fn29801214, Rec&&, bool, long, Rec&, const std::string&, const std::string&, std::vector<int>*, double, Rec&&>(c);
 sig<double Rec::*, double, Rec&>(c);
 struct Fn567228163 { std::vector<int>* operator()(const long, Rec&, const long, std::vector<int>*, std::vector<int>*, std::vector<int>*, void*) const; };
 sig<Fn567228163&&, std::vector<int>*, long, Rec&, long, std::vector<int>*, std::vector<int>*, std::vector<int>*, void*>(c);
 sig<double Rec::*, double, Rec&>(c);
 struct Fn766598051 { int operator()(const std::string&, const long, std::vector<int>*, Rec&&, std::pair<int, int>, std::pair<int, int>, const std::string&); };
 sig<Fn766598051, int, const std::string&, long, std::vector<int>*, Rec&&, std::pair<int, int>, std::pair<int, int>, const std::string&>(c);
 sig<double(Rec::*)(int, double, Rec, Rec, const long, const long), double, Rec&, int, double, Rec, Rec, long, long>(c);
 sig<bool(void*, std::vector<int>*, Rec&&, void*, std::pair<int, int>, const long), bool, void*, std::vector<int>*, Rec&&, void*, std::pair<int, int>, long>(c);
 sig<void*(Rec::*)(std::vector<int>*, int, Rec&, Rec&) const, void*, const Rec&, std::vector<int>*, int, Rec&, Rec&>(c);
 struct Fn142272377 { Rec&& operator()(Rec, std::pair<int, int>, bool); };
 sig<Fn142272377&, Rec&&, Rec, std::pair<int, int>, bool>(c);
 sig<const Rec*(Rec::*)(std::pair<int, int>, std::pair<int, int>, bool, Rec, const long, const Rec*, std::vector<int>*), const Rec*, Rec&, std::pair<int, int>, std::pair<int, int>, bool, Rec, long, const Rec*, std::vector<int>*>(c);
 sig<double(int), double, int>(c);
 sig<std::pair<int, int>(Rec::*)(const Rec*, Rec, std::pair<int, int>, Rec, const Rec*, Rec&, int, bool), std::pair<int, int>, Rec&, const Rec*, Rec, std::pair<int, int>, Rec, const Rec*, Rec&, int, bool>(c);
 sig<const std::string&(Rec, Rec&&, Rec&&, std::vector<int>*), const std::string&, Rec, Rec&&, Rec&&, std::vector<int>*>(c);
 struct Fn707538202 { double operator()() const; };
 sig<Fn707538202, double>(c);
 sig<void*(Rec::*)(Rec&) const, void*, const Rec&, Rec&>(c);
 sig<int(Rec::*)(double, Rec&, Rec&&, const long, std::pair<int, int>) const, int, const Rec&, double, Rec&, Rec&&, long, std::pair<int, int>>(c);
 sig<double Rec::*, double, Rec&>(c);
 sig<const Rec*(*)(int, std::vector<int>*, bool, std::pair<int, int>), const Rec*, int, std::vector<int>*, bool, std::pair<int, int>>(c);
 sig<double Rec::*, double, Rec&>(c);
 struct Fn346846189 { const Rec* operator()(Rec, const long); };
 sig<Fn346846189, const Rec*, Rec, long>(c);
 sig<void*(Rec::*)(bool, int, const Rec*, Rec&), void*, Rec&, bool, int, const Rec*, Rec&>(c);
 struct Fn828408120 { std::pair<int, int> operator()(std::vector<int>*, bool, Rec&, int); };
 sig<Fn828408120&&, std::pair<int, int>, std::vector<int>*, bool, Rec&, int>(c);
 sig<Rec&(Rec::*)(Rec&&, Rec&&, int, Rec&&, const long, double, Rec, const std::string&), Rec&, Rec&, Rec&&, Rec&&, int, Rec&&, long, double, Rec, const std::string&>(c);
 sig<Rec Rec::*, Rec, Rec&>(c);
 struct Fn55117657 { Rec operator()(void*, std::pair<int, int>, const long, std::pair<int, int>, Rec, const long, bool) const; };
 sig<Fn55117657&, Rec, void*, std::pair<int, int>, long, std::pair<int, int>, Rec, long, bool>(c);
 sig<void*(*)(std::vector<int>*, int, std::pair<int, int>, Rec&), void*, std::vector<int>*, int, std::pair<int, int>, Rec&>(c);
 struct Fn232262581 { void operator()(void*, int, std::pair<int, int>, Rec&&, const std::string&, const std::string&) const; };
 sig<Fn232262581&, void, void*, int, std::pair<int, int>, Rec&&, const std::string&, const std::string&>(c);
 struct Fn408242266 { std::vector<int>* operator()(int, Rec&, std::pair<int, int>, Rec, Rec&, bool) const; };
 sig<Fn408242266, std::vector<int>*, int, Rec&, std::pair<int, int>, Rec, Rec&, bool>(c);
 sig<const std::string&(void*, Rec), const std::string&, void*, Rec>(c);
 sig<void*(*)(), void*>(c);
 sig<void*(const Rec*, const std::string&, const long), void*, const Rec*, const std::string&, long>(c);
 struct Fn56973706 { int operator()(const long, bool, const long, double) const; };
 sig<Fn56973706, int, long, bool, long, double>(c);
 struct Fn92719926 { Rec operator()(const Rec*, std::pair<int, int>, Rec, int, Rec, int, const Rec*, const Rec*); };
 sig<Fn92719926, Rec, const Rec*, std::pair<int, int>, Rec, int, Rec, int, const Rec*, const Rec*>(c);
 sig<Rec(*)(const std::string&, const std::string&, std::pair<int, int>, double, Rec&, std::pair<int, int>), Rec, const std::string&, const std::string&, std::pair<int, int>, double, Rec&, std::pair<int, int>>(c);
 sig<int(Rec::*)(const std::string&, bool, Rec, Rec&&, bool, bool, Rec) const, int, const Rec&, const std::string&, bool, Rec, Rec&&, bool, bool, Rec>(c);
 sig<Rec&&(Rec::*)(Rec&&, Rec&, const std::string&) const, Rec&&, const Rec&, Rec&&, Rec&, const std::string&>(c);
 sig<double(Rec::*)(double, const std::string&, const std::string&, bool, const long, const std::string&, Rec&), double, Rec&, double, const std::string&, const std::string&, bool, long, const std::string&, Rec&>(c);
 struct Fn583262753 { Rec operator()(); };
 sig<Fn583262753, Rec>(c);
 sig<Rec&(Rec::*)(void*) const, Rec&, const Rec&, void*>(c);
}
