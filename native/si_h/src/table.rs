// generated by tools/gen_table.py
pub const SYMS: &[(&str, [i64; 7], f64)] = &[
    ("A", [0, 0, 0, 0, 1, 0, 0], 1.0),
    ("Bq", [0, -1, 0, 0, 0, 0, 0], 1.0),
    ("C", [0, 1, 0, 0, 1, 0, 0], 1.0),
    ("Da", [0, 0, 1, 0, 0, 0, 0], 1.6605390666e-27),
    ("EA", [0, 0, 0, 0, 1, 0, 0], 1e+18),
    ("EBq", [0, -1, 0, 0, 0, 0, 0], 1e+18),
    ("EC", [0, 1, 0, 0, 1, 0, 0], 1e+18),
    ("EF", [-2, 4, -1, 0, 2, 0, 0], 1e+18),
    ("EGy", [2, -2, 0, 0, 0, 0, 0], 1e+18),
    ("EH", [2, -2, 1, 0, -2, 0, 0], 1e+18),
    ("EHz", [0, -1, 0, 0, 0, 0, 0], 1e+18),
    ("EJ", [2, -2, 1, 0, 0, 0, 0], 1e+18),
    ("EK", [0, 0, 0, 1, 0, 0, 0], 1e+18),
    ("EN", [1, -2, 1, 0, 0, 0, 0], 1e+18),
    ("EPa", [-1, -2, 1, 0, 0, 0, 0], 1e+18),
    ("ES", [-2, 3, -1, 0, 2, 0, 0], 1e+18),
    ("ESv", [2, -2, 0, 0, 0, 0, 0], 1e+18),
    ("ET", [0, -2, 1, 0, -1, 0, 0], 1e+18),
    ("EV", [2, -3, 1, 0, -1, 0, 0], 1e+18),
    ("EW", [2, -3, 1, 0, 0, 0, 0], 1e+18),
    ("EWb", [2, -2, 1, 0, -1, 0, 0], 1e+18),
    ("Ecd", [0, 0, 0, 0, 0, 0, 1], 1e+18),
    ("EeV", [2, -2, 1, 0, 0, 0, 0], 0.1602176634),
    ("Eg", [0, 0, 1, 0, 0, 0, 0], 1000000000000000.0),
    ("Ekat", [0, -1, 0, 0, 0, 1, 0], 1e+18),
    ("El", [3, 0, 0, 0, 0, 0, 0], 1000000000000000.0),
    ("Elm", [0, 0, 0, 0, 0, 0, 1], 1e+18),
    ("Elx", [-2, 0, 0, 0, 0, 0, 1], 1e+18),
    ("Em", [1, 0, 0, 0, 0, 0, 0], 1e+18),
    ("Emol", [0, 0, 0, 0, 0, 1, 0], 1e+18),
    ("Erad", [0, 0, 0, 0, 0, 0, 0], 1e+18),
    ("Es", [0, 1, 0, 0, 0, 0, 0], 1e+18),
    ("Esr", [0, 0, 0, 0, 0, 0, 0], 1e+18),
    ("EΩ", [2, -3, 1, 0, -2, 0, 0], 1e+18),
    ("F", [-2, 4, -1, 0, 2, 0, 0], 1.0),
    ("GA", [0, 0, 0, 0, 1, 0, 0], 1000000000.0),
    ("GBq", [0, -1, 0, 0, 0, 0, 0], 1000000000.0),
    ("GC", [0, 1, 0, 0, 1, 0, 0], 1000000000.0),
    ("GF", [-2, 4, -1, 0, 2, 0, 0], 1000000000.0),
    ("GGy", [2, -2, 0, 0, 0, 0, 0], 1000000000.0),
    ("GH", [2, -2, 1, 0, -2, 0, 0], 1000000000.0),
    ("GHz", [0, -1, 0, 0, 0, 0, 0], 1000000000.0),
    ("GJ", [2, -2, 1, 0, 0, 0, 0], 1000000000.0),
    ("GK", [0, 0, 0, 1, 0, 0, 0], 1000000000.0),
    ("GN", [1, -2, 1, 0, 0, 0, 0], 1000000000.0),
    ("GPa", [-1, -2, 1, 0, 0, 0, 0], 1000000000.0),
    ("GS", [-2, 3, -1, 0, 2, 0, 0], 1000000000.0),
    ("GSv", [2, -2, 0, 0, 0, 0, 0], 1000000000.0),
    ("GT", [0, -2, 1, 0, -1, 0, 0], 1000000000.0),
    ("GV", [2, -3, 1, 0, -1, 0, 0], 1000000000.0),
    ("GW", [2, -3, 1, 0, 0, 0, 0], 1000000000.0),
    ("GWb", [2, -2, 1, 0, -1, 0, 0], 1000000000.0),
    ("Gcd", [0, 0, 0, 0, 0, 0, 1], 1000000000.0),
    ("GeV", [2, -2, 1, 0, 0, 0, 0], 1.602176634e-10),
    ("Gg", [0, 0, 1, 0, 0, 0, 0], 1000000.0),
    ("Gkat", [0, -1, 0, 0, 0, 1, 0], 1000000000.0),
    ("Gl", [3, 0, 0, 0, 0, 0, 0], 1000000.0),
    ("Glm", [0, 0, 0, 0, 0, 0, 1], 1000000000.0),
    ("Glx", [-2, 0, 0, 0, 0, 0, 1], 1000000000.0),
    ("Gm", [1, 0, 0, 0, 0, 0, 0], 1000000000.0),
    ("Gmol", [0, 0, 0, 0, 0, 1, 0], 1000000000.0),
    ("Grad", [0, 0, 0, 0, 0, 0, 0], 1000000000.0),
    ("Gs", [0, 1, 0, 0, 0, 0, 0], 1000000000.0),
    ("Gsr", [0, 0, 0, 0, 0, 0, 0], 1000000000.0),
    ("Gy", [2, -2, 0, 0, 0, 0, 0], 1.0),
    ("GΩ", [2, -3, 1, 0, -2, 0, 0], 1000000000.0),
    ("H", [2, -2, 1, 0, -2, 0, 0], 1.0),
    ("Hz", [0, -1, 0, 0, 0, 0, 0], 1.0),
    ("J", [2, -2, 1, 0, 0, 0, 0], 1.0),
    ("K", [0, 0, 0, 1, 0, 0, 0], 1.0),
    ("MA", [0, 0, 0, 0, 1, 0, 0], 1000000.0),
    ("MBq", [0, -1, 0, 0, 0, 0, 0], 1000000.0),
    ("MC", [0, 1, 0, 0, 1, 0, 0], 1000000.0),
    ("MF", [-2, 4, -1, 0, 2, 0, 0], 1000000.0),
    ("MGy", [2, -2, 0, 0, 0, 0, 0], 1000000.0),
    ("MH", [2, -2, 1, 0, -2, 0, 0], 1000000.0),
    ("MHz", [0, -1, 0, 0, 0, 0, 0], 1000000.0),
    ("MJ", [2, -2, 1, 0, 0, 0, 0], 1000000.0),
    ("MK", [0, 0, 0, 1, 0, 0, 0], 1000000.0),
    ("MN", [1, -2, 1, 0, 0, 0, 0], 1000000.0),
    ("MPa", [-1, -2, 1, 0, 0, 0, 0], 1000000.0),
    ("MS", [-2, 3, -1, 0, 2, 0, 0], 1000000.0),
    ("MSv", [2, -2, 0, 0, 0, 0, 0], 1000000.0),
    ("MT", [0, -2, 1, 0, -1, 0, 0], 1000000.0),
    ("MV", [2, -3, 1, 0, -1, 0, 0], 1000000.0),
    ("MW", [2, -3, 1, 0, 0, 0, 0], 1000000.0),
    ("MWb", [2, -2, 1, 0, -1, 0, 0], 1000000.0),
    ("Mcd", [0, 0, 0, 0, 0, 0, 1], 1000000.0),
    ("MeV", [2, -2, 1, 0, 0, 0, 0], 1.602176634e-13),
    ("Mg", [0, 0, 1, 0, 0, 0, 0], 1000.0),
    ("Mkat", [0, -1, 0, 0, 0, 1, 0], 1000000.0),
    ("Ml", [3, 0, 0, 0, 0, 0, 0], 1000.0),
    ("Mlm", [0, 0, 0, 0, 0, 0, 1], 1000000.0),
    ("Mlx", [-2, 0, 0, 0, 0, 0, 1], 1000000.0),
    ("Mm", [1, 0, 0, 0, 0, 0, 0], 1000000.0),
    ("Mmol", [0, 0, 0, 0, 0, 1, 0], 1000000.0),
    ("Mrad", [0, 0, 0, 0, 0, 0, 0], 1000000.0),
    ("Ms", [0, 1, 0, 0, 0, 0, 0], 1000000.0),
    ("Msr", [0, 0, 0, 0, 0, 0, 0], 1000000.0),
    ("MΩ", [2, -3, 1, 0, -2, 0, 0], 1000000.0),
    ("N", [1, -2, 1, 0, 0, 0, 0], 1.0),
    ("PA", [0, 0, 0, 0, 1, 0, 0], 1000000000000000.0),
    ("PBq", [0, -1, 0, 0, 0, 0, 0], 1000000000000000.0),
    ("PC", [0, 1, 0, 0, 1, 0, 0], 1000000000000000.0),
    ("PF", [-2, 4, -1, 0, 2, 0, 0], 1000000000000000.0),
    ("PGy", [2, -2, 0, 0, 0, 0, 0], 1000000000000000.0),
    ("PH", [2, -2, 1, 0, -2, 0, 0], 1000000000000000.0),
    ("PHz", [0, -1, 0, 0, 0, 0, 0], 1000000000000000.0),
    ("PJ", [2, -2, 1, 0, 0, 0, 0], 1000000000000000.0),
    ("PK", [0, 0, 0, 1, 0, 0, 0], 1000000000000000.0),
    ("PN", [1, -2, 1, 0, 0, 0, 0], 1000000000000000.0),
    ("PPa", [-1, -2, 1, 0, 0, 0, 0], 1000000000000000.0),
    ("PS", [-2, 3, -1, 0, 2, 0, 0], 1000000000000000.0),
    ("PSv", [2, -2, 0, 0, 0, 0, 0], 1000000000000000.0),
    ("PT", [0, -2, 1, 0, -1, 0, 0], 1000000000000000.0),
    ("PV", [2, -3, 1, 0, -1, 0, 0], 1000000000000000.0),
    ("PW", [2, -3, 1, 0, 0, 0, 0], 1000000000000000.0),
    ("PWb", [2, -2, 1, 0, -1, 0, 0], 1000000000000000.0),
    ("Pa", [-1, -2, 1, 0, 0, 0, 0], 1.0),
    ("Pcd", [0, 0, 0, 0, 0, 0, 1], 1000000000000000.0),
    ("PeV", [2, -2, 1, 0, 0, 0, 0], 0.0001602176634),
    ("Pg", [0, 0, 1, 0, 0, 0, 0], 1000000000000.0),
    ("Pkat", [0, -1, 0, 0, 0, 1, 0], 1000000000000000.0),
    ("Pl", [3, 0, 0, 0, 0, 0, 0], 1000000000000.0),
    ("Plm", [0, 0, 0, 0, 0, 0, 1], 1000000000000000.0),
    ("Plx", [-2, 0, 0, 0, 0, 0, 1], 1000000000000000.0),
    ("Pm", [1, 0, 0, 0, 0, 0, 0], 1000000000000000.0),
    ("Pmol", [0, 0, 0, 0, 0, 1, 0], 1000000000000000.0),
    ("Prad", [0, 0, 0, 0, 0, 0, 0], 1000000000000000.0),
    ("Ps", [0, 1, 0, 0, 0, 0, 0], 1000000000000000.0),
    ("Psr", [0, 0, 0, 0, 0, 0, 0], 1000000000000000.0),
    ("PΩ", [2, -3, 1, 0, -2, 0, 0], 1000000000000000.0),
    ("S", [-2, 3, -1, 0, 2, 0, 0], 1.0),
    ("Sv", [2, -2, 0, 0, 0, 0, 0], 1.0),
    ("T", [0, -2, 1, 0, -1, 0, 0], 1.0),
    ("TA", [0, 0, 0, 0, 1, 0, 0], 1000000000000.0),
    ("TBq", [0, -1, 0, 0, 0, 0, 0], 1000000000000.0),
    ("TC", [0, 1, 0, 0, 1, 0, 0], 1000000000000.0),
    ("TF", [-2, 4, -1, 0, 2, 0, 0], 1000000000000.0),
    ("TGy", [2, -2, 0, 0, 0, 0, 0], 1000000000000.0),
    ("TH", [2, -2, 1, 0, -2, 0, 0], 1000000000000.0),
    ("THz", [0, -1, 0, 0, 0, 0, 0], 1000000000000.0),
    ("TJ", [2, -2, 1, 0, 0, 0, 0], 1000000000000.0),
    ("TK", [0, 0, 0, 1, 0, 0, 0], 1000000000000.0),
    ("TN", [1, -2, 1, 0, 0, 0, 0], 1000000000000.0),
    ("TPa", [-1, -2, 1, 0, 0, 0, 0], 1000000000000.0),
    ("TS", [-2, 3, -1, 0, 2, 0, 0], 1000000000000.0),
    ("TSv", [2, -2, 0, 0, 0, 0, 0], 1000000000000.0),
    ("TT", [0, -2, 1, 0, -1, 0, 0], 1000000000000.0),
    ("TV", [2, -3, 1, 0, -1, 0, 0], 1000000000000.0),
    ("TW", [2, -3, 1, 0, 0, 0, 0], 1000000000000.0),
    ("TWb", [2, -2, 1, 0, -1, 0, 0], 1000000000000.0),
    ("Tcd", [0, 0, 0, 0, 0, 0, 1], 1000000000000.0),
    ("TeV", [2, -2, 1, 0, 0, 0, 0], 1.602176634e-07),
    ("Tg", [0, 0, 1, 0, 0, 0, 0], 1000000000.0),
    ("Tkat", [0, -1, 0, 0, 0, 1, 0], 1000000000000.0),
    ("Tl", [3, 0, 0, 0, 0, 0, 0], 1000000000.0),
    ("Tlm", [0, 0, 0, 0, 0, 0, 1], 1000000000000.0),
    ("Tlx", [-2, 0, 0, 0, 0, 0, 1], 1000000000000.0),
    ("Tm", [1, 0, 0, 0, 0, 0, 0], 1000000000000.0),
    ("Tmol", [0, 0, 0, 0, 0, 1, 0], 1000000000000.0),
    ("Trad", [0, 0, 0, 0, 0, 0, 0], 1000000000000.0),
    ("Ts", [0, 1, 0, 0, 0, 0, 0], 1000000000000.0),
    ("Tsr", [0, 0, 0, 0, 0, 0, 0], 1000000000000.0),
    ("TΩ", [2, -3, 1, 0, -2, 0, 0], 1000000000000.0),
    ("V", [2, -3, 1, 0, -1, 0, 0], 1.0),
    ("W", [2, -3, 1, 0, 0, 0, 0], 1.0),
    ("Wb", [2, -2, 1, 0, -1, 0, 0], 1.0),
    ("aA", [0, 0, 0, 0, 1, 0, 0], 1e-18),
    ("aBq", [0, -1, 0, 0, 0, 0, 0], 1e-18),
    ("aC", [0, 1, 0, 0, 1, 0, 0], 1e-18),
    ("aF", [-2, 4, -1, 0, 2, 0, 0], 1e-18),
    ("aGy", [2, -2, 0, 0, 0, 0, 0], 1e-18),
    ("aH", [2, -2, 1, 0, -2, 0, 0], 1e-18),
    ("aHz", [0, -1, 0, 0, 0, 0, 0], 1e-18),
    ("aJ", [2, -2, 1, 0, 0, 0, 0], 1e-18),
    ("aK", [0, 0, 0, 1, 0, 0, 0], 1e-18),
    ("aN", [1, -2, 1, 0, 0, 0, 0], 1e-18),
    ("aPa", [-1, -2, 1, 0, 0, 0, 0], 1e-18),
    ("aS", [-2, 3, -1, 0, 2, 0, 0], 1e-18),
    ("aSv", [2, -2, 0, 0, 0, 0, 0], 1e-18),
    ("aT", [0, -2, 1, 0, -1, 0, 0], 1e-18),
    ("aV", [2, -3, 1, 0, -1, 0, 0], 1e-18),
    ("aW", [2, -3, 1, 0, 0, 0, 0], 1e-18),
    ("aWb", [2, -2, 1, 0, -1, 0, 0], 1e-18),
    ("acd", [0, 0, 0, 0, 0, 0, 1], 1e-18),
    ("aeV", [2, -2, 1, 0, 0, 0, 0], 1.602176634e-37),
    ("ag", [0, 0, 1, 0, 0, 0, 0], 1e-21),
    ("akat", [0, -1, 0, 0, 0, 1, 0], 1e-18),
    ("al", [3, 0, 0, 0, 0, 0, 0], 1e-21),
    ("alm", [0, 0, 0, 0, 0, 0, 1], 1e-18),
    ("alx", [-2, 0, 0, 0, 0, 0, 1], 1e-18),
    ("am", [1, 0, 0, 0, 0, 0, 0], 1e-18),
    ("amol", [0, 0, 0, 0, 0, 1, 0], 1e-18),
    ("arad", [0, 0, 0, 0, 0, 0, 0], 1e-18),
    ("as", [0, 1, 0, 0, 0, 0, 0], 1e-18),
    ("asr", [0, 0, 0, 0, 0, 0, 0], 1e-18),
    ("au", [1, 0, 0, 0, 0, 0, 0], 149597870700.0),
    ("aΩ", [2, -3, 1, 0, -2, 0, 0], 1e-18),
    ("cA", [0, 0, 0, 0, 1, 0, 0], 0.01),
    ("cBq", [0, -1, 0, 0, 0, 0, 0], 0.01),
    ("cC", [0, 1, 0, 0, 1, 0, 0], 0.01),
    ("cF", [-2, 4, -1, 0, 2, 0, 0], 0.01),
    ("cGy", [2, -2, 0, 0, 0, 0, 0], 0.01),
    ("cH", [2, -2, 1, 0, -2, 0, 0], 0.01),
    ("cHz", [0, -1, 0, 0, 0, 0, 0], 0.01),
    ("cJ", [2, -2, 1, 0, 0, 0, 0], 0.01),
    ("cK", [0, 0, 0, 1, 0, 0, 0], 0.01),
    ("cN", [1, -2, 1, 0, 0, 0, 0], 0.01),
    ("cPa", [-1, -2, 1, 0, 0, 0, 0], 0.01),
    ("cS", [-2, 3, -1, 0, 2, 0, 0], 0.01),
    ("cSv", [2, -2, 0, 0, 0, 0, 0], 0.01),
    ("cT", [0, -2, 1, 0, -1, 0, 0], 0.01),
    ("cV", [2, -3, 1, 0, -1, 0, 0], 0.01),
    ("cW", [2, -3, 1, 0, 0, 0, 0], 0.01),
    ("cWb", [2, -2, 1, 0, -1, 0, 0], 0.01),
    ("ccd", [0, 0, 0, 0, 0, 0, 1], 0.01),
    ("cd", [0, 0, 0, 0, 0, 0, 1], 1.0),
    ("ceV", [2, -2, 1, 0, 0, 0, 0], 1.602176634e-21),
    ("cg", [0, 0, 1, 0, 0, 0, 0], 1e-05),
    ("ckat", [0, -1, 0, 0, 0, 1, 0], 0.01),
    ("cl", [3, 0, 0, 0, 0, 0, 0], 1e-05),
    ("clm", [0, 0, 0, 0, 0, 0, 1], 0.01),
    ("clx", [-2, 0, 0, 0, 0, 0, 1], 0.01),
    ("cm", [1, 0, 0, 0, 0, 0, 0], 0.01),
    ("cmol", [0, 0, 0, 0, 0, 1, 0], 0.01),
    ("crad", [0, 0, 0, 0, 0, 0, 0], 0.01),
    ("cs", [0, 1, 0, 0, 0, 0, 0], 0.01),
    ("csr", [0, 0, 0, 0, 0, 0, 0], 0.01),
    ("cΩ", [2, -3, 1, 0, -2, 0, 0], 0.01),
    ("dA", [0, 0, 0, 0, 1, 0, 0], 0.1),
    ("dBq", [0, -1, 0, 0, 0, 0, 0], 0.1),
    ("dC", [0, 1, 0, 0, 1, 0, 0], 0.1),
    ("dF", [-2, 4, -1, 0, 2, 0, 0], 0.1),
    ("dGy", [2, -2, 0, 0, 0, 0, 0], 0.1),
    ("dH", [2, -2, 1, 0, -2, 0, 0], 0.1),
    ("dHz", [0, -1, 0, 0, 0, 0, 0], 0.1),
    ("dJ", [2, -2, 1, 0, 0, 0, 0], 0.1),
    ("dK", [0, 0, 0, 1, 0, 0, 0], 0.1),
    ("dN", [1, -2, 1, 0, 0, 0, 0], 0.1),
    ("dPa", [-1, -2, 1, 0, 0, 0, 0], 0.1),
    ("dS", [-2, 3, -1, 0, 2, 0, 0], 0.1),
    ("dSv", [2, -2, 0, 0, 0, 0, 0], 0.1),
    ("dT", [0, -2, 1, 0, -1, 0, 0], 0.1),
    ("dV", [2, -3, 1, 0, -1, 0, 0], 0.1),
    ("dW", [2, -3, 1, 0, 0, 0, 0], 0.1),
    ("dWb", [2, -2, 1, 0, -1, 0, 0], 0.1),
    ("daA", [0, 0, 0, 0, 1, 0, 0], 10.0),
    ("daBq", [0, -1, 0, 0, 0, 0, 0], 10.0),
    ("daC", [0, 1, 0, 0, 1, 0, 0], 10.0),
    ("daF", [-2, 4, -1, 0, 2, 0, 0], 10.0),
    ("daGy", [2, -2, 0, 0, 0, 0, 0], 10.0),
    ("daH", [2, -2, 1, 0, -2, 0, 0], 10.0),
    ("daHz", [0, -1, 0, 0, 0, 0, 0], 10.0),
    ("daJ", [2, -2, 1, 0, 0, 0, 0], 10.0),
    ("daK", [0, 0, 0, 1, 0, 0, 0], 10.0),
    ("daN", [1, -2, 1, 0, 0, 0, 0], 10.0),
    ("daPa", [-1, -2, 1, 0, 0, 0, 0], 10.0),
    ("daS", [-2, 3, -1, 0, 2, 0, 0], 10.0),
    ("daSv", [2, -2, 0, 0, 0, 0, 0], 10.0),
    ("daT", [0, -2, 1, 0, -1, 0, 0], 10.0),
    ("daV", [2, -3, 1, 0, -1, 0, 0], 10.0),
    ("daW", [2, -3, 1, 0, 0, 0, 0], 10.0),
    ("daWb", [2, -2, 1, 0, -1, 0, 0], 10.0),
    ("dacd", [0, 0, 0, 0, 0, 0, 1], 10.0),
    ("daeV", [2, -2, 1, 0, 0, 0, 0], 1.602176634e-18),
    ("dag", [0, 0, 1, 0, 0, 0, 0], 0.01),
    ("dakat", [0, -1, 0, 0, 0, 1, 0], 10.0),
    ("dal", [3, 0, 0, 0, 0, 0, 0], 0.01),
    ("dalm", [0, 0, 0, 0, 0, 0, 1], 10.0),
    ("dalx", [-2, 0, 0, 0, 0, 0, 1], 10.0),
    ("dam", [1, 0, 0, 0, 0, 0, 0], 10.0),
    ("damol", [0, 0, 0, 0, 0, 1, 0], 10.0),
    ("darad", [0, 0, 0, 0, 0, 0, 0], 10.0),
    ("das", [0, 1, 0, 0, 0, 0, 0], 10.0),
    ("dasr", [0, 0, 0, 0, 0, 0, 0], 10.0),
    ("day", [0, 1, 0, 0, 0, 0, 0], 86400.0),
    ("daΩ", [2, -3, 1, 0, -2, 0, 0], 10.0),
    ("dcd", [0, 0, 0, 0, 0, 0, 1], 0.1),
    ("deV", [2, -2, 1, 0, 0, 0, 0], 1.602176634e-20),
    ("deg", [0, 0, 0, 0, 0, 0, 0], 0.017453292519943295),
    ("dg", [0, 0, 1, 0, 0, 0, 0], 0.0001),
    ("dkat", [0, -1, 0, 0, 0, 1, 0], 0.1),
    ("dl", [3, 0, 0, 0, 0, 0, 0], 0.0001),
    ("dlm", [0, 0, 0, 0, 0, 0, 1], 0.1),
    ("dlx", [-2, 0, 0, 0, 0, 0, 1], 0.1),
    ("dm", [1, 0, 0, 0, 0, 0, 0], 0.1),
    ("dmol", [0, 0, 0, 0, 0, 1, 0], 0.1),
    ("drad", [0, 0, 0, 0, 0, 0, 0], 0.1),
    ("ds", [0, 1, 0, 0, 0, 0, 0], 0.1),
    ("dsr", [0, 0, 0, 0, 0, 0, 0], 0.1),
    ("dΩ", [2, -3, 1, 0, -2, 0, 0], 0.1),
    ("eV", [2, -2, 1, 0, 0, 0, 0], 1.602176634e-19),
    ("fA", [0, 0, 0, 0, 1, 0, 0], 1e-15),
    ("fBq", [0, -1, 0, 0, 0, 0, 0], 1e-15),
    ("fC", [0, 1, 0, 0, 1, 0, 0], 1e-15),
    ("fF", [-2, 4, -1, 0, 2, 0, 0], 1e-15),
    ("fGy", [2, -2, 0, 0, 0, 0, 0], 1e-15),
    ("fH", [2, -2, 1, 0, -2, 0, 0], 1e-15),
    ("fHz", [0, -1, 0, 0, 0, 0, 0], 1e-15),
    ("fJ", [2, -2, 1, 0, 0, 0, 0], 1e-15),
    ("fK", [0, 0, 0, 1, 0, 0, 0], 1e-15),
    ("fN", [1, -2, 1, 0, 0, 0, 0], 1e-15),
    ("fPa", [-1, -2, 1, 0, 0, 0, 0], 1e-15),
    ("fS", [-2, 3, -1, 0, 2, 0, 0], 1e-15),
    ("fSv", [2, -2, 0, 0, 0, 0, 0], 1e-15),
    ("fT", [0, -2, 1, 0, -1, 0, 0], 1e-15),
    ("fV", [2, -3, 1, 0, -1, 0, 0], 1e-15),
    ("fW", [2, -3, 1, 0, 0, 0, 0], 1e-15),
    ("fWb", [2, -2, 1, 0, -1, 0, 0], 1e-15),
    ("fcd", [0, 0, 0, 0, 0, 0, 1], 1e-15),
    ("feV", [2, -2, 1, 0, 0, 0, 0], 1.602176634e-34),
    ("fg", [0, 0, 1, 0, 0, 0, 0], 1e-18),
    ("fkat", [0, -1, 0, 0, 0, 1, 0], 1e-15),
    ("fl", [3, 0, 0, 0, 0, 0, 0], 1e-18),
    ("flm", [0, 0, 0, 0, 0, 0, 1], 1e-15),
    ("flx", [-2, 0, 0, 0, 0, 0, 1], 1e-15),
    ("fm", [1, 0, 0, 0, 0, 0, 0], 1e-15),
    ("fmol", [0, 0, 0, 0, 0, 1, 0], 1e-15),
    ("frad", [0, 0, 0, 0, 0, 0, 0], 1e-15),
    ("fs", [0, 1, 0, 0, 0, 0, 0], 1e-15),
    ("fsr", [0, 0, 0, 0, 0, 0, 0], 1e-15),
    ("fΩ", [2, -3, 1, 0, -2, 0, 0], 1e-15),
    ("g", [0, 0, 1, 0, 0, 0, 0], 0.001),
    ("h", [0, 1, 0, 0, 0, 0, 0], 3600.0),
    ("hA", [0, 0, 0, 0, 1, 0, 0], 100.0),
    ("hBq", [0, -1, 0, 0, 0, 0, 0], 100.0),
    ("hC", [0, 1, 0, 0, 1, 0, 0], 100.0),
    ("hF", [-2, 4, -1, 0, 2, 0, 0], 100.0),
    ("hGy", [2, -2, 0, 0, 0, 0, 0], 100.0),
    ("hH", [2, -2, 1, 0, -2, 0, 0], 100.0),
    ("hHz", [0, -1, 0, 0, 0, 0, 0], 100.0),
    ("hJ", [2, -2, 1, 0, 0, 0, 0], 100.0),
    ("hK", [0, 0, 0, 1, 0, 0, 0], 100.0),
    ("hN", [1, -2, 1, 0, 0, 0, 0], 100.0),
    ("hPa", [-1, -2, 1, 0, 0, 0, 0], 100.0),
    ("hS", [-2, 3, -1, 0, 2, 0, 0], 100.0),
    ("hSv", [2, -2, 0, 0, 0, 0, 0], 100.0),
    ("hT", [0, -2, 1, 0, -1, 0, 0], 100.0),
    ("hV", [2, -3, 1, 0, -1, 0, 0], 100.0),
    ("hW", [2, -3, 1, 0, 0, 0, 0], 100.0),
    ("hWb", [2, -2, 1, 0, -1, 0, 0], 100.0),
    ("ha", [2, 0, 0, 0, 0, 0, 0], 10000.0),
    ("hcd", [0, 0, 0, 0, 0, 0, 1], 100.0),
    ("heV", [2, -2, 1, 0, 0, 0, 0], 1.602176634e-17),
    ("hg", [0, 0, 1, 0, 0, 0, 0], 0.1),
    ("hkat", [0, -1, 0, 0, 0, 1, 0], 100.0),
    ("hl", [3, 0, 0, 0, 0, 0, 0], 0.1),
    ("hlm", [0, 0, 0, 0, 0, 0, 1], 100.0),
    ("hlx", [-2, 0, 0, 0, 0, 0, 1], 100.0),
    ("hm", [1, 0, 0, 0, 0, 0, 0], 100.0),
    ("hmol", [0, 0, 0, 0, 0, 1, 0], 100.0),
    ("hrad", [0, 0, 0, 0, 0, 0, 0], 100.0),
    ("hs", [0, 1, 0, 0, 0, 0, 0], 100.0),
    ("hsr", [0, 0, 0, 0, 0, 0, 0], 100.0),
    ("hΩ", [2, -3, 1, 0, -2, 0, 0], 100.0),
    ("kA", [0, 0, 0, 0, 1, 0, 0], 1000.0),
    ("kBq", [0, -1, 0, 0, 0, 0, 0], 1000.0),
    ("kC", [0, 1, 0, 0, 1, 0, 0], 1000.0),
    ("kF", [-2, 4, -1, 0, 2, 0, 0], 1000.0),
    ("kGy", [2, -2, 0, 0, 0, 0, 0], 1000.0),
    ("kH", [2, -2, 1, 0, -2, 0, 0], 1000.0),
    ("kHz", [0, -1, 0, 0, 0, 0, 0], 1000.0),
    ("kJ", [2, -2, 1, 0, 0, 0, 0], 1000.0),
    ("kK", [0, 0, 0, 1, 0, 0, 0], 1000.0),
    ("kN", [1, -2, 1, 0, 0, 0, 0], 1000.0),
    ("kPa", [-1, -2, 1, 0, 0, 0, 0], 1000.0),
    ("kS", [-2, 3, -1, 0, 2, 0, 0], 1000.0),
    ("kSv", [2, -2, 0, 0, 0, 0, 0], 1000.0),
    ("kT", [0, -2, 1, 0, -1, 0, 0], 1000.0),
    ("kV", [2, -3, 1, 0, -1, 0, 0], 1000.0),
    ("kW", [2, -3, 1, 0, 0, 0, 0], 1000.0),
    ("kWb", [2, -2, 1, 0, -1, 0, 0], 1000.0),
    ("kat", [0, -1, 0, 0, 0, 1, 0], 1.0),
    ("kcd", [0, 0, 0, 0, 0, 0, 1], 1000.0),
    ("keV", [2, -2, 1, 0, 0, 0, 0], 1.602176634e-16),
    ("kg", [0, 0, 1, 0, 0, 0, 0], 1.0),
    ("kkat", [0, -1, 0, 0, 0, 1, 0], 1000.0),
    ("kl", [3, 0, 0, 0, 0, 0, 0], 1.0),
    ("klm", [0, 0, 0, 0, 0, 0, 1], 1000.0),
    ("klx", [-2, 0, 0, 0, 0, 0, 1], 1000.0),
    ("km", [1, 0, 0, 0, 0, 0, 0], 1000.0),
    ("kmol", [0, 0, 0, 0, 0, 1, 0], 1000.0),
    ("krad", [0, 0, 0, 0, 0, 0, 0], 1000.0),
    ("ks", [0, 1, 0, 0, 0, 0, 0], 1000.0),
    ("ksr", [0, 0, 0, 0, 0, 0, 0], 1000.0),
    ("kΩ", [2, -3, 1, 0, -2, 0, 0], 1000.0),
    ("l", [3, 0, 0, 0, 0, 0, 0], 0.001),
    ("lm", [0, 0, 0, 0, 0, 0, 1], 1.0),
    ("lx", [-2, 0, 0, 0, 0, 0, 1], 1.0),
    ("m", [1, 0, 0, 0, 0, 0, 0], 1.0),
    ("mA", [0, 0, 0, 0, 1, 0, 0], 0.001),
    ("mBq", [0, -1, 0, 0, 0, 0, 0], 0.001),
    ("mC", [0, 1, 0, 0, 1, 0, 0], 0.001),
    ("mF", [-2, 4, -1, 0, 2, 0, 0], 0.001),
    ("mGy", [2, -2, 0, 0, 0, 0, 0], 0.001),
    ("mH", [2, -2, 1, 0, -2, 0, 0], 0.001),
    ("mHz", [0, -1, 0, 0, 0, 0, 0], 0.001),
    ("mJ", [2, -2, 1, 0, 0, 0, 0], 0.001),
    ("mK", [0, 0, 0, 1, 0, 0, 0], 0.001),
    ("mN", [1, -2, 1, 0, 0, 0, 0], 0.001),
    ("mPa", [-1, -2, 1, 0, 0, 0, 0], 0.001),
    ("mS", [-2, 3, -1, 0, 2, 0, 0], 0.001),
    ("mSv", [2, -2, 0, 0, 0, 0, 0], 0.001),
    ("mT", [0, -2, 1, 0, -1, 0, 0], 0.001),
    ("mV", [2, -3, 1, 0, -1, 0, 0], 0.001),
    ("mW", [2, -3, 1, 0, 0, 0, 0], 0.001),
    ("mWb", [2, -2, 1, 0, -1, 0, 0], 0.001),
    ("mcd", [0, 0, 0, 0, 0, 0, 1], 0.001),
    ("meV", [2, -2, 1, 0, 0, 0, 0], 1.602176634e-22),
    ("mg", [0, 0, 1, 0, 0, 0, 0], 1e-06),
    ("min", [0, 1, 0, 0, 0, 0, 0], 60.0),
    ("mkat", [0, -1, 0, 0, 0, 1, 0], 0.001),
    ("ml", [3, 0, 0, 0, 0, 0, 0], 1e-06),
    ("mlm", [0, 0, 0, 0, 0, 0, 1], 0.001),
    ("mlx", [-2, 0, 0, 0, 0, 0, 1], 0.001),
    ("mm", [1, 0, 0, 0, 0, 0, 0], 0.001),
    ("mmol", [0, 0, 0, 0, 0, 1, 0], 0.001),
    ("mol", [0, 0, 0, 0, 0, 1, 0], 1.0),
    ("mrad", [0, 0, 0, 0, 0, 0, 0], 0.001),
    ("ms", [0, 1, 0, 0, 0, 0, 0], 0.001),
    ("msr", [0, 0, 0, 0, 0, 0, 0], 0.001),
    ("mΩ", [2, -3, 1, 0, -2, 0, 0], 0.001),
    ("nA", [0, 0, 0, 0, 1, 0, 0], 1e-09),
    ("nBq", [0, -1, 0, 0, 0, 0, 0], 1e-09),
    ("nC", [0, 1, 0, 0, 1, 0, 0], 1e-09),
    ("nF", [-2, 4, -1, 0, 2, 0, 0], 1e-09),
    ("nGy", [2, -2, 0, 0, 0, 0, 0], 1e-09),
    ("nH", [2, -2, 1, 0, -2, 0, 0], 1e-09),
    ("nHz", [0, -1, 0, 0, 0, 0, 0], 1e-09),
    ("nJ", [2, -2, 1, 0, 0, 0, 0], 1e-09),
    ("nK", [0, 0, 0, 1, 0, 0, 0], 1e-09),
    ("nN", [1, -2, 1, 0, 0, 0, 0], 1e-09),
    ("nPa", [-1, -2, 1, 0, 0, 0, 0], 1e-09),
    ("nS", [-2, 3, -1, 0, 2, 0, 0], 1e-09),
    ("nSv", [2, -2, 0, 0, 0, 0, 0], 1e-09),
    ("nT", [0, -2, 1, 0, -1, 0, 0], 1e-09),
    ("nV", [2, -3, 1, 0, -1, 0, 0], 1e-09),
    ("nW", [2, -3, 1, 0, 0, 0, 0], 1e-09),
    ("nWb", [2, -2, 1, 0, -1, 0, 0], 1e-09),
    ("ncd", [0, 0, 0, 0, 0, 0, 1], 1e-09),
    ("neV", [2, -2, 1, 0, 0, 0, 0], 1.602176634e-28),
    ("ng", [0, 0, 1, 0, 0, 0, 0], 1e-12),
    ("nkat", [0, -1, 0, 0, 0, 1, 0], 1e-09),
    ("nl", [3, 0, 0, 0, 0, 0, 0], 1e-12),
    ("nlm", [0, 0, 0, 0, 0, 0, 1], 1e-09),
    ("nlx", [-2, 0, 0, 0, 0, 0, 1], 1e-09),
    ("nm", [1, 0, 0, 0, 0, 0, 0], 1e-09),
    ("nmol", [0, 0, 0, 0, 0, 1, 0], 1e-09),
    ("nrad", [0, 0, 0, 0, 0, 0, 0], 1e-09),
    ("ns", [0, 1, 0, 0, 0, 0, 0], 1e-09),
    ("nsr", [0, 0, 0, 0, 0, 0, 0], 1e-09),
    ("nΩ", [2, -3, 1, 0, -2, 0, 0], 1e-09),
    ("pA", [0, 0, 0, 0, 1, 0, 0], 1e-12),
    ("pBq", [0, -1, 0, 0, 0, 0, 0], 1e-12),
    ("pC", [0, 1, 0, 0, 1, 0, 0], 1e-12),
    ("pF", [-2, 4, -1, 0, 2, 0, 0], 1e-12),
    ("pGy", [2, -2, 0, 0, 0, 0, 0], 1e-12),
    ("pH", [2, -2, 1, 0, -2, 0, 0], 1e-12),
    ("pHz", [0, -1, 0, 0, 0, 0, 0], 1e-12),
    ("pJ", [2, -2, 1, 0, 0, 0, 0], 1e-12),
    ("pK", [0, 0, 0, 1, 0, 0, 0], 1e-12),
    ("pN", [1, -2, 1, 0, 0, 0, 0], 1e-12),
    ("pPa", [-1, -2, 1, 0, 0, 0, 0], 1e-12),
    ("pS", [-2, 3, -1, 0, 2, 0, 0], 1e-12),
    ("pSv", [2, -2, 0, 0, 0, 0, 0], 1e-12),
    ("pT", [0, -2, 1, 0, -1, 0, 0], 1e-12),
    ("pV", [2, -3, 1, 0, -1, 0, 0], 1e-12),
    ("pW", [2, -3, 1, 0, 0, 0, 0], 1e-12),
    ("pWb", [2, -2, 1, 0, -1, 0, 0], 1e-12),
    ("pcd", [0, 0, 0, 0, 0, 0, 1], 1e-12),
    ("peV", [2, -2, 1, 0, 0, 0, 0], 1.602176634e-31),
    ("pg", [0, 0, 1, 0, 0, 0, 0], 1e-15),
    ("pkat", [0, -1, 0, 0, 0, 1, 0], 1e-12),
    ("pl", [3, 0, 0, 0, 0, 0, 0], 1e-15),
    ("plm", [0, 0, 0, 0, 0, 0, 1], 1e-12),
    ("plx", [-2, 0, 0, 0, 0, 0, 1], 1e-12),
    ("pm", [1, 0, 0, 0, 0, 0, 0], 1e-12),
    ("pmol", [0, 0, 0, 0, 0, 1, 0], 1e-12),
    ("prad", [0, 0, 0, 0, 0, 0, 0], 1e-12),
    ("ps", [0, 1, 0, 0, 0, 0, 0], 1e-12),
    ("psr", [0, 0, 0, 0, 0, 0, 0], 1e-12),
    ("pΩ", [2, -3, 1, 0, -2, 0, 0], 1e-12),
    ("rad", [0, 0, 0, 0, 0, 0, 0], 1.0),
    ("s", [0, 1, 0, 0, 0, 0, 0], 1.0),
    ("sr", [0, 0, 0, 0, 0, 0, 0], 1.0),
    ("Ω", [2, -3, 1, 0, -2, 0, 0], 1.0),
    ("μA", [0, 0, 0, 0, 1, 0, 0], 1e-06),
    ("μBq", [0, -1, 0, 0, 0, 0, 0], 1e-06),
    ("μC", [0, 1, 0, 0, 1, 0, 0], 1e-06),
    ("μF", [-2, 4, -1, 0, 2, 0, 0], 1e-06),
    ("μGy", [2, -2, 0, 0, 0, 0, 0], 1e-06),
    ("μH", [2, -2, 1, 0, -2, 0, 0], 1e-06),
    ("μHz", [0, -1, 0, 0, 0, 0, 0], 1e-06),
    ("μJ", [2, -2, 1, 0, 0, 0, 0], 1e-06),
    ("μK", [0, 0, 0, 1, 0, 0, 0], 1e-06),
    ("μN", [1, -2, 1, 0, 0, 0, 0], 1e-06),
    ("μPa", [-1, -2, 1, 0, 0, 0, 0], 1e-06),
    ("μS", [-2, 3, -1, 0, 2, 0, 0], 1e-06),
    ("μSv", [2, -2, 0, 0, 0, 0, 0], 1e-06),
    ("μT", [0, -2, 1, 0, -1, 0, 0], 1e-06),
    ("μV", [2, -3, 1, 0, -1, 0, 0], 1e-06),
    ("μW", [2, -3, 1, 0, 0, 0, 0], 1e-06),
    ("μWb", [2, -2, 1, 0, -1, 0, 0], 1e-06),
    ("μcd", [0, 0, 0, 0, 0, 0, 1], 1e-06),
    ("μeV", [2, -2, 1, 0, 0, 0, 0], 1.602176634e-25),
    ("μg", [0, 0, 1, 0, 0, 0, 0], 1e-09),
    ("μkat", [0, -1, 0, 0, 0, 1, 0], 1e-06),
    ("μl", [3, 0, 0, 0, 0, 0, 0], 1e-09),
    ("μlm", [0, 0, 0, 0, 0, 0, 1], 1e-06),
    ("μlx", [-2, 0, 0, 0, 0, 0, 1], 1e-06),
    ("μm", [1, 0, 0, 0, 0, 0, 0], 1e-06),
    ("μmol", [0, 0, 0, 0, 0, 1, 0], 1e-06),
    ("μrad", [0, 0, 0, 0, 0, 0, 0], 1e-06),
    ("μs", [0, 1, 0, 0, 0, 0, 0], 1e-06),
    ("μsr", [0, 0, 0, 0, 0, 0, 0], 1e-06),
    ("μΩ", [2, -3, 1, 0, -2, 0, 0], 1e-06),
];
#[macro_export]
macro_rules! all_dims {
    ($m:ident) => {
        $m!(Length, [1, 0, 0, 0, 0, 0, 0]);
        $m!(Time, [0, 1, 0, 0, 0, 0, 0]);
        $m!(Mass, [0, 0, 1, 0, 0, 0, 0]);
        $m!(Temperature, [0, 0, 0, 1, 0, 0, 0]);
        $m!(Current, [0, 0, 0, 0, 1, 0, 0]);
        $m!(AmountOfSubstance, [0, 0, 0, 0, 0, 1, 0]);
        $m!(LuminousIntensity, [0, 0, 0, 0, 0, 0, 1]);
        $m!(Dimensionless, [0, 0, 0, 0, 0, 0, 0]);
        $m!(Angle, [0, 0, 0, 0, 0, 0, 0]);
        $m!(SolidAngle, [0, 0, 0, 0, 0, 0, 0]);
        $m!(Area, [2, 0, 0, 0, 0, 0, 0]);
        $m!(Volume, [3, 0, 0, 0, 0, 0, 0]);
        $m!(Wavenumber, [-1, 0, 0, 0, 0, 0, 0]);
        $m!(Frequency, [0, -1, 0, 0, 0, 0, 0]);
        $m!(Velocity, [1, -1, 0, 0, 0, 0, 0]);
        $m!(Acceleration, [1, -2, 0, 0, 0, 0, 0]);
        $m!(Jerk, [1, -3, 0, 0, 0, 0, 0]);
        $m!(FlowRate, [3, -1, 0, 0, 0, 0, 0]);
        $m!(Momentum, [1, -1, 1, 0, 0, 0, 0]);
        $m!(Force, [1, -2, 1, 0, 0, 0, 0]);
        $m!(Energy, [2, -2, 1, 0, 0, 0, 0]);
        $m!(Power, [2, -3, 1, 0, 0, 0, 0]);
        $m!(Pressure, [-1, -2, 1, 0, 0, 0, 0]);
        $m!(Action, [2, -1, 1, 0, 0, 0, 0]);
        $m!(MassDensity, [-3, 0, 1, 0, 0, 0, 0]);
        $m!(MomentOfInertia, [2, 0, 1, 0, 0, 0, 0]);
        $m!(AngularMomentum, [2, -1, 1, 0, 0, 0, 0]);
        $m!(Torque, [2, -2, 1, 0, 0, 0, 0]);
        $m!(EnergyDensity, [-1, -2, 1, 0, 0, 0, 0]);
        $m!(MassFlow, [0, -1, 1, 0, 0, 0, 0]);
        $m!(ElectricCharge, [0, 1, 0, 0, 1, 0, 0]);
        $m!(Voltage, [2, -3, 1, 0, -1, 0, 0]);
        $m!(Capacitance, [-2, 4, -1, 0, 2, 0, 0]);
        $m!(ElectricResistance, [2, -3, 1, 0, -2, 0, 0]);
        $m!(Resistivity, [3, -3, 1, 0, -2, 0, 0]);
        $m!(ElectricConductance, [-2, 3, -1, 0, 2, 0, 0]);
        $m!(Conductivity, [-3, 3, -1, 0, 2, 0, 0]);
        $m!(MagneticFluxDensity, [0, -2, 1, 0, -1, 0, 0]);
        $m!(MagneticFlux, [2, -2, 1, 0, -1, 0, 0]);
        $m!(MagneticFieldStrength, [-1, 0, 0, 0, 1, 0, 0]);
        $m!(Inductance, [2, -2, 1, 0, -2, 0, 0]);
        $m!(ElectricChargeDensity, [-3, 1, 0, 0, 1, 0, 0]);
        $m!(CurrentDensity, [-2, 0, 0, 0, 1, 0, 0]);
        $m!(ElectricDipoleMoment, [1, 1, 0, 0, 1, 0, 0]);
        $m!(ElectricQuadrupoleMoment, [2, 1, 0, 0, 1, 0, 0]);
        $m!(MagneticDipoleMoment, [2, 0, 0, 0, 1, 0, 0]);
        $m!(ElectricFieldStrength, [1, -3, 1, 0, -1, 0, 0]);
        $m!(ElectricDisplacementFieldStrength, [-2, 1, 0, 0, 1, 0, 0]);
        $m!(ElectricPermittivity, [-3, 4, -1, 0, 2, 0, 0]);
        $m!(MagneticPermeability, [1, -2, 1, 0, -2, 0, 0]);
        $m!(Polarizability, [0, 4, -1, 0, 2, 0, 0]);
        $m!(ElectricMobility, [0, 2, -1, 0, 1, 0, 0]);
        $m!(Entropy, [2, -2, 1, -1, 0, 0, 0]);
        $m!(HeatCapacity, [2, -2, 1, -1, 0, 0, 0]);
        $m!(SpecificHeatCapacity, [2, -2, 0, -1, 0, 0, 0]);
        $m!(ThermalConductivity, [1, -3, 1, -1, 0, 0, 0]);
        $m!(ThermalTransmittance, [0, -3, 1, -1, 0, 0, 0]);
        $m!(MolarMass, [0, 0, 1, 0, 0, -1, 0]);
        $m!(MolarVolume, [3, 0, 0, 0, 0, -1, 0]);
        $m!(CatalyticActivity, [0, -1, 0, 0, 0, 1, 0]);
        $m!(Molarity, [-3, 0, 0, 0, 0, 1, 0]);
        $m!(Molality, [0, 0, -1, 0, 0, 1, 0]);
        $m!(ChemicalPotential, [2, -2, 1, 0, 0, -1, 0]);
        $m!(MolarHeatCapacity, [2, -2, 1, -1, 0, -1, 0]);
        $m!(LuminousFlux, [0, 0, 0, 0, 0, 0, 1]);
        $m!(Illuminance, [-2, 0, 0, 0, 0, 0, 1]);
        $m!(Irradiance, [0, -3, 1, 0, 0, 0, 0]);
        $m!(Activity, [0, -1, 0, 0, 0, 0, 0]);
        $m!(AbsorbedDose, [2, -2, 0, 0, 0, 0, 0]);
        $m!(EquivalentDose, [2, -2, 0, 0, 0, 0, 0]);
        $m!(SpecificActivity, [0, -1, -1, 0, 0, 0, 0]);
        $m!(DynamicViscosity, [-1, -1, 1, 0, 0, 0, 0]);
        $m!(KinematicViscosity, [2, -1, 0, 0, 0, 0, 0]);
        $m!(MomentumDensity, [-2, -1, 1, 0, 0, 0, 0]);
        $m!(SpecificEnergy, [2, -2, 0, 0, 0, 0, 0]);
        $m!(MassFlux, [-2, -1, 1, 0, 0, 0, 0]);
        $m!(EnergyFlux, [0, -3, 1, 0, 0, 0, 0]);
    };
}
#[macro_export]
macro_rules! all_units {
    ($m:ident) => {
        $m!(meter, [1, 0, 0, 0, 0, 0, 0], 1.0);
        $m!(metre, [1, 0, 0, 0, 0, 0, 0], 1.0);
        $m!(metres, [1, 0, 0, 0, 0, 0, 0], 1.0);
        $m!(meters, [1, 0, 0, 0, 0, 0, 0], 1.0);
        $m!(exameter, [1, 0, 0, 0, 0, 0, 0], 1e+18);
        $m!(exametre, [1, 0, 0, 0, 0, 0, 0], 1e+18);
        $m!(exametres, [1, 0, 0, 0, 0, 0, 0], 1e+18);
        $m!(exameters, [1, 0, 0, 0, 0, 0, 0], 1e+18);
        $m!(petameter, [1, 0, 0, 0, 0, 0, 0], 1000000000000000.0);
        $m!(petametre, [1, 0, 0, 0, 0, 0, 0], 1000000000000000.0);
        $m!(petametres, [1, 0, 0, 0, 0, 0, 0], 1000000000000000.0);
        $m!(petameters, [1, 0, 0, 0, 0, 0, 0], 1000000000000000.0);
        $m!(terameter, [1, 0, 0, 0, 0, 0, 0], 1000000000000.0);
        $m!(terametre, [1, 0, 0, 0, 0, 0, 0], 1000000000000.0);
        $m!(terametres, [1, 0, 0, 0, 0, 0, 0], 1000000000000.0);
        $m!(terameters, [1, 0, 0, 0, 0, 0, 0], 1000000000000.0);
        $m!(gigameter, [1, 0, 0, 0, 0, 0, 0], 1000000000.0);
        $m!(gigametre, [1, 0, 0, 0, 0, 0, 0], 1000000000.0);
        $m!(gigametres, [1, 0, 0, 0, 0, 0, 0], 1000000000.0);
        $m!(gigameters, [1, 0, 0, 0, 0, 0, 0], 1000000000.0);
        $m!(megameter, [1, 0, 0, 0, 0, 0, 0], 1000000.0);
        $m!(megametre, [1, 0, 0, 0, 0, 0, 0], 1000000.0);
        $m!(megametres, [1, 0, 0, 0, 0, 0, 0], 1000000.0);
        $m!(megameters, [1, 0, 0, 0, 0, 0, 0], 1000000.0);
        $m!(kilometer, [1, 0, 0, 0, 0, 0, 0], 1000.0);
        $m!(kilometre, [1, 0, 0, 0, 0, 0, 0], 1000.0);
        $m!(kilometres, [1, 0, 0, 0, 0, 0, 0], 1000.0);
        $m!(kilometers, [1, 0, 0, 0, 0, 0, 0], 1000.0);
        $m!(hectometer, [1, 0, 0, 0, 0, 0, 0], 100.0);
        $m!(hectometre, [1, 0, 0, 0, 0, 0, 0], 100.0);
        $m!(hectometres, [1, 0, 0, 0, 0, 0, 0], 100.0);
        $m!(hectometers, [1, 0, 0, 0, 0, 0, 0], 100.0);
        $m!(decameter, [1, 0, 0, 0, 0, 0, 0], 10.0);
        $m!(decametre, [1, 0, 0, 0, 0, 0, 0], 10.0);
        $m!(decametres, [1, 0, 0, 0, 0, 0, 0], 10.0);
        $m!(decameters, [1, 0, 0, 0, 0, 0, 0], 10.0);
        $m!(decimeter, [1, 0, 0, 0, 0, 0, 0], 0.1);
        $m!(decimetre, [1, 0, 0, 0, 0, 0, 0], 0.1);
        $m!(decimetres, [1, 0, 0, 0, 0, 0, 0], 0.1);
        $m!(decimeters, [1, 0, 0, 0, 0, 0, 0], 0.1);
        $m!(centimeter, [1, 0, 0, 0, 0, 0, 0], 0.01);
        $m!(centimetre, [1, 0, 0, 0, 0, 0, 0], 0.01);
        $m!(centimetres, [1, 0, 0, 0, 0, 0, 0], 0.01);
        $m!(centimeters, [1, 0, 0, 0, 0, 0, 0], 0.01);
        $m!(millimeter, [1, 0, 0, 0, 0, 0, 0], 0.001);
        $m!(millimetre, [1, 0, 0, 0, 0, 0, 0], 0.001);
        $m!(millimetres, [1, 0, 0, 0, 0, 0, 0], 0.001);
        $m!(millimeters, [1, 0, 0, 0, 0, 0, 0], 0.001);
        $m!(micrometer, [1, 0, 0, 0, 0, 0, 0], 1e-06);
        $m!(micrometre, [1, 0, 0, 0, 0, 0, 0], 1e-06);
        $m!(micrometres, [1, 0, 0, 0, 0, 0, 0], 1e-06);
        $m!(micrometers, [1, 0, 0, 0, 0, 0, 0], 1e-06);
        $m!(nanometer, [1, 0, 0, 0, 0, 0, 0], 1e-09);
        $m!(nanometre, [1, 0, 0, 0, 0, 0, 0], 1e-09);
        $m!(nanometres, [1, 0, 0, 0, 0, 0, 0], 1e-09);
        $m!(nanometers, [1, 0, 0, 0, 0, 0, 0], 1e-09);
        $m!(picometer, [1, 0, 0, 0, 0, 0, 0], 1e-12);
        $m!(picometre, [1, 0, 0, 0, 0, 0, 0], 1e-12);
        $m!(picometres, [1, 0, 0, 0, 0, 0, 0], 1e-12);
        $m!(picometers, [1, 0, 0, 0, 0, 0, 0], 1e-12);
        $m!(femtometer, [1, 0, 0, 0, 0, 0, 0], 1e-15);
        $m!(femtometre, [1, 0, 0, 0, 0, 0, 0], 1e-15);
        $m!(femtometres, [1, 0, 0, 0, 0, 0, 0], 1e-15);
        $m!(femtometers, [1, 0, 0, 0, 0, 0, 0], 1e-15);
        $m!(attometer, [1, 0, 0, 0, 0, 0, 0], 1e-18);
        $m!(attometre, [1, 0, 0, 0, 0, 0, 0], 1e-18);
        $m!(attometres, [1, 0, 0, 0, 0, 0, 0], 1e-18);
        $m!(attometers, [1, 0, 0, 0, 0, 0, 0], 1e-18);
        $m!(second, [0, 1, 0, 0, 0, 0, 0], 1.0);
        $m!(seconds, [0, 1, 0, 0, 0, 0, 0], 1.0);
        $m!(exasecond, [0, 1, 0, 0, 0, 0, 0], 1e+18);
        $m!(exaseconds, [0, 1, 0, 0, 0, 0, 0], 1e+18);
        $m!(petasecond, [0, 1, 0, 0, 0, 0, 0], 1000000000000000.0);
        $m!(petaseconds, [0, 1, 0, 0, 0, 0, 0], 1000000000000000.0);
        $m!(terasecond, [0, 1, 0, 0, 0, 0, 0], 1000000000000.0);
        $m!(teraseconds, [0, 1, 0, 0, 0, 0, 0], 1000000000000.0);
        $m!(gigasecond, [0, 1, 0, 0, 0, 0, 0], 1000000000.0);
        $m!(gigaseconds, [0, 1, 0, 0, 0, 0, 0], 1000000000.0);
        $m!(megasecond, [0, 1, 0, 0, 0, 0, 0], 1000000.0);
        $m!(megaseconds, [0, 1, 0, 0, 0, 0, 0], 1000000.0);
        $m!(kilosecond, [0, 1, 0, 0, 0, 0, 0], 1000.0);
        $m!(kiloseconds, [0, 1, 0, 0, 0, 0, 0], 1000.0);
        $m!(hectosecond, [0, 1, 0, 0, 0, 0, 0], 100.0);
        $m!(hectoseconds, [0, 1, 0, 0, 0, 0, 0], 100.0);
        $m!(decasecond, [0, 1, 0, 0, 0, 0, 0], 10.0);
        $m!(decaseconds, [0, 1, 0, 0, 0, 0, 0], 10.0);
        $m!(decisecond, [0, 1, 0, 0, 0, 0, 0], 0.1);
        $m!(deciseconds, [0, 1, 0, 0, 0, 0, 0], 0.1);
        $m!(centisecond, [0, 1, 0, 0, 0, 0, 0], 0.01);
        $m!(centiseconds, [0, 1, 0, 0, 0, 0, 0], 0.01);
        $m!(millisecond, [0, 1, 0, 0, 0, 0, 0], 0.001);
        $m!(milliseconds, [0, 1, 0, 0, 0, 0, 0], 0.001);
        $m!(microsecond, [0, 1, 0, 0, 0, 0, 0], 1e-06);
        $m!(microseconds, [0, 1, 0, 0, 0, 0, 0], 1e-06);
        $m!(nanosecond, [0, 1, 0, 0, 0, 0, 0], 1e-09);
        $m!(nanoseconds, [0, 1, 0, 0, 0, 0, 0], 1e-09);
        $m!(picosecond, [0, 1, 0, 0, 0, 0, 0], 1e-12);
        $m!(picoseconds, [0, 1, 0, 0, 0, 0, 0], 1e-12);
        $m!(femtosecond, [0, 1, 0, 0, 0, 0, 0], 1e-15);
        $m!(femtoseconds, [0, 1, 0, 0, 0, 0, 0], 1e-15);
        $m!(attosecond, [0, 1, 0, 0, 0, 0, 0], 1e-18);
        $m!(attoseconds, [0, 1, 0, 0, 0, 0, 0], 1e-18);
        $m!(kilogram, [0, 0, 1, 0, 0, 0, 0], 1.0);
        $m!(kilograms, [0, 0, 1, 0, 0, 0, 0], 1.0);
        $m!(gram, [0, 0, 1, 0, 0, 0, 0], 0.001);
        $m!(grams, [0, 0, 1, 0, 0, 0, 0], 0.001);
        $m!(exagram, [0, 0, 1, 0, 0, 0, 0], 1000000000000000.0);
        $m!(exagrams, [0, 0, 1, 0, 0, 0, 0], 1000000000000000.0);
        $m!(petagram, [0, 0, 1, 0, 0, 0, 0], 1000000000000.0);
        $m!(petagrams, [0, 0, 1, 0, 0, 0, 0], 1000000000000.0);
        $m!(teragram, [0, 0, 1, 0, 0, 0, 0], 1000000000.0);
        $m!(teragrams, [0, 0, 1, 0, 0, 0, 0], 1000000000.0);
        $m!(gigagram, [0, 0, 1, 0, 0, 0, 0], 1000000.0);
        $m!(gigagrams, [0, 0, 1, 0, 0, 0, 0], 1000000.0);
        $m!(megagram, [0, 0, 1, 0, 0, 0, 0], 1000.0);
        $m!(megagrams, [0, 0, 1, 0, 0, 0, 0], 1000.0);
        $m!(hectogram, [0, 0, 1, 0, 0, 0, 0], 0.1);
        $m!(hectograms, [0, 0, 1, 0, 0, 0, 0], 0.1);
        $m!(decagram, [0, 0, 1, 0, 0, 0, 0], 0.01);
        $m!(decagrams, [0, 0, 1, 0, 0, 0, 0], 0.01);
        $m!(decigram, [0, 0, 1, 0, 0, 0, 0], 0.0001);
        $m!(decigrams, [0, 0, 1, 0, 0, 0, 0], 0.0001);
        $m!(centigram, [0, 0, 1, 0, 0, 0, 0], 1e-05);
        $m!(centigrams, [0, 0, 1, 0, 0, 0, 0], 1e-05);
        $m!(milligram, [0, 0, 1, 0, 0, 0, 0], 1e-06);
        $m!(milligrams, [0, 0, 1, 0, 0, 0, 0], 1e-06);
        $m!(microgram, [0, 0, 1, 0, 0, 0, 0], 1e-09);
        $m!(micrograms, [0, 0, 1, 0, 0, 0, 0], 1e-09);
        $m!(nanogram, [0, 0, 1, 0, 0, 0, 0], 1e-12);
        $m!(nanograms, [0, 0, 1, 0, 0, 0, 0], 1e-12);
        $m!(picogram, [0, 0, 1, 0, 0, 0, 0], 1e-15);
        $m!(picograms, [0, 0, 1, 0, 0, 0, 0], 1e-15);
        $m!(femtogram, [0, 0, 1, 0, 0, 0, 0], 1e-18);
        $m!(femtograms, [0, 0, 1, 0, 0, 0, 0], 1e-18);
        $m!(attogram, [0, 0, 1, 0, 0, 0, 0], 1e-21);
        $m!(attograms, [0, 0, 1, 0, 0, 0, 0], 1e-21);
        $m!(ampere, [0, 0, 0, 0, 1, 0, 0], 1.0);
        $m!(amperes, [0, 0, 0, 0, 1, 0, 0], 1.0);
        $m!(exaampere, [0, 0, 0, 0, 1, 0, 0], 1e+18);
        $m!(exaamperes, [0, 0, 0, 0, 1, 0, 0], 1e+18);
        $m!(petaampere, [0, 0, 0, 0, 1, 0, 0], 1000000000000000.0);
        $m!(petaamperes, [0, 0, 0, 0, 1, 0, 0], 1000000000000000.0);
        $m!(teraampere, [0, 0, 0, 0, 1, 0, 0], 1000000000000.0);
        $m!(teraamperes, [0, 0, 0, 0, 1, 0, 0], 1000000000000.0);
        $m!(gigaampere, [0, 0, 0, 0, 1, 0, 0], 1000000000.0);
        $m!(gigaamperes, [0, 0, 0, 0, 1, 0, 0], 1000000000.0);
        $m!(megaampere, [0, 0, 0, 0, 1, 0, 0], 1000000.0);
        $m!(megaamperes, [0, 0, 0, 0, 1, 0, 0], 1000000.0);
        $m!(kiloampere, [0, 0, 0, 0, 1, 0, 0], 1000.0);
        $m!(kiloamperes, [0, 0, 0, 0, 1, 0, 0], 1000.0);
        $m!(hectoampere, [0, 0, 0, 0, 1, 0, 0], 100.0);
        $m!(hectoamperes, [0, 0, 0, 0, 1, 0, 0], 100.0);
        $m!(decaampere, [0, 0, 0, 0, 1, 0, 0], 10.0);
        $m!(decaamperes, [0, 0, 0, 0, 1, 0, 0], 10.0);
        $m!(deciampere, [0, 0, 0, 0, 1, 0, 0], 0.1);
        $m!(deciamperes, [0, 0, 0, 0, 1, 0, 0], 0.1);
        $m!(centiampere, [0, 0, 0, 0, 1, 0, 0], 0.01);
        $m!(centiamperes, [0, 0, 0, 0, 1, 0, 0], 0.01);
        $m!(milliampere, [0, 0, 0, 0, 1, 0, 0], 0.001);
        $m!(milliamperes, [0, 0, 0, 0, 1, 0, 0], 0.001);
        $m!(microampere, [0, 0, 0, 0, 1, 0, 0], 1e-06);
        $m!(microamperes, [0, 0, 0, 0, 1, 0, 0], 1e-06);
        $m!(nanoampere, [0, 0, 0, 0, 1, 0, 0], 1e-09);
        $m!(nanoamperes, [0, 0, 0, 0, 1, 0, 0], 1e-09);
        $m!(picoampere, [0, 0, 0, 0, 1, 0, 0], 1e-12);
        $m!(picoamperes, [0, 0, 0, 0, 1, 0, 0], 1e-12);
        $m!(femtoampere, [0, 0, 0, 0, 1, 0, 0], 1e-15);
        $m!(femtoamperes, [0, 0, 0, 0, 1, 0, 0], 1e-15);
        $m!(attoampere, [0, 0, 0, 0, 1, 0, 0], 1e-18);
        $m!(attoamperes, [0, 0, 0, 0, 1, 0, 0], 1e-18);
        $m!(kelvin, [0, 0, 0, 1, 0, 0, 0], 1.0);
        $m!(kelvins, [0, 0, 0, 1, 0, 0, 0], 1.0);
        $m!(exakelvin, [0, 0, 0, 1, 0, 0, 0], 1e+18);
        $m!(exakelvins, [0, 0, 0, 1, 0, 0, 0], 1e+18);
        $m!(petakelvin, [0, 0, 0, 1, 0, 0, 0], 1000000000000000.0);
        $m!(petakelvins, [0, 0, 0, 1, 0, 0, 0], 1000000000000000.0);
        $m!(terakelvin, [0, 0, 0, 1, 0, 0, 0], 1000000000000.0);
        $m!(terakelvins, [0, 0, 0, 1, 0, 0, 0], 1000000000000.0);
        $m!(gigakelvin, [0, 0, 0, 1, 0, 0, 0], 1000000000.0);
        $m!(gigakelvins, [0, 0, 0, 1, 0, 0, 0], 1000000000.0);
        $m!(megakelvin, [0, 0, 0, 1, 0, 0, 0], 1000000.0);
        $m!(megakelvins, [0, 0, 0, 1, 0, 0, 0], 1000000.0);
        $m!(kilokelvin, [0, 0, 0, 1, 0, 0, 0], 1000.0);
        $m!(kilokelvins, [0, 0, 0, 1, 0, 0, 0], 1000.0);
        $m!(hectokelvin, [0, 0, 0, 1, 0, 0, 0], 100.0);
        $m!(hectokelvins, [0, 0, 0, 1, 0, 0, 0], 100.0);
        $m!(decakelvin, [0, 0, 0, 1, 0, 0, 0], 10.0);
        $m!(decakelvins, [0, 0, 0, 1, 0, 0, 0], 10.0);
        $m!(decikelvin, [0, 0, 0, 1, 0, 0, 0], 0.1);
        $m!(decikelvins, [0, 0, 0, 1, 0, 0, 0], 0.1);
        $m!(centikelvin, [0, 0, 0, 1, 0, 0, 0], 0.01);
        $m!(centikelvins, [0, 0, 0, 1, 0, 0, 0], 0.01);
        $m!(millikelvin, [0, 0, 0, 1, 0, 0, 0], 0.001);
        $m!(millikelvins, [0, 0, 0, 1, 0, 0, 0], 0.001);
        $m!(microkelvin, [0, 0, 0, 1, 0, 0, 0], 1e-06);
        $m!(microkelvins, [0, 0, 0, 1, 0, 0, 0], 1e-06);
        $m!(nanokelvin, [0, 0, 0, 1, 0, 0, 0], 1e-09);
        $m!(nanokelvins, [0, 0, 0, 1, 0, 0, 0], 1e-09);
        $m!(picokelvin, [0, 0, 0, 1, 0, 0, 0], 1e-12);
        $m!(picokelvins, [0, 0, 0, 1, 0, 0, 0], 1e-12);
        $m!(femtokelvin, [0, 0, 0, 1, 0, 0, 0], 1e-15);
        $m!(femtokelvins, [0, 0, 0, 1, 0, 0, 0], 1e-15);
        $m!(attokelvin, [0, 0, 0, 1, 0, 0, 0], 1e-18);
        $m!(attokelvins, [0, 0, 0, 1, 0, 0, 0], 1e-18);
        $m!(mole, [0, 0, 0, 0, 0, 1, 0], 1.0);
        $m!(moles, [0, 0, 0, 0, 0, 1, 0], 1.0);
        $m!(examole, [0, 0, 0, 0, 0, 1, 0], 1e+18);
        $m!(examoles, [0, 0, 0, 0, 0, 1, 0], 1e+18);
        $m!(petamole, [0, 0, 0, 0, 0, 1, 0], 1000000000000000.0);
        $m!(petamoles, [0, 0, 0, 0, 0, 1, 0], 1000000000000000.0);
        $m!(teramole, [0, 0, 0, 0, 0, 1, 0], 1000000000000.0);
        $m!(teramoles, [0, 0, 0, 0, 0, 1, 0], 1000000000000.0);
        $m!(gigamole, [0, 0, 0, 0, 0, 1, 0], 1000000000.0);
        $m!(gigamoles, [0, 0, 0, 0, 0, 1, 0], 1000000000.0);
        $m!(megamole, [0, 0, 0, 0, 0, 1, 0], 1000000.0);
        $m!(megamoles, [0, 0, 0, 0, 0, 1, 0], 1000000.0);
        $m!(kilomole, [0, 0, 0, 0, 0, 1, 0], 1000.0);
        $m!(kilomoles, [0, 0, 0, 0, 0, 1, 0], 1000.0);
        $m!(hectomole, [0, 0, 0, 0, 0, 1, 0], 100.0);
        $m!(hectomoles, [0, 0, 0, 0, 0, 1, 0], 100.0);
        $m!(decamole, [0, 0, 0, 0, 0, 1, 0], 10.0);
        $m!(decamoles, [0, 0, 0, 0, 0, 1, 0], 10.0);
        $m!(decimole, [0, 0, 0, 0, 0, 1, 0], 0.1);
        $m!(decimoles, [0, 0, 0, 0, 0, 1, 0], 0.1);
        $m!(centimole, [0, 0, 0, 0, 0, 1, 0], 0.01);
        $m!(centimoles, [0, 0, 0, 0, 0, 1, 0], 0.01);
        $m!(millimole, [0, 0, 0, 0, 0, 1, 0], 0.001);
        $m!(millimoles, [0, 0, 0, 0, 0, 1, 0], 0.001);
        $m!(micromole, [0, 0, 0, 0, 0, 1, 0], 1e-06);
        $m!(micromoles, [0, 0, 0, 0, 0, 1, 0], 1e-06);
        $m!(nanomole, [0, 0, 0, 0, 0, 1, 0], 1e-09);
        $m!(nanomoles, [0, 0, 0, 0, 0, 1, 0], 1e-09);
        $m!(picomole, [0, 0, 0, 0, 0, 1, 0], 1e-12);
        $m!(picomoles, [0, 0, 0, 0, 0, 1, 0], 1e-12);
        $m!(femtomole, [0, 0, 0, 0, 0, 1, 0], 1e-15);
        $m!(femtomoles, [0, 0, 0, 0, 0, 1, 0], 1e-15);
        $m!(attomole, [0, 0, 0, 0, 0, 1, 0], 1e-18);
        $m!(attomoles, [0, 0, 0, 0, 0, 1, 0], 1e-18);
        $m!(candela, [0, 0, 0, 0, 0, 0, 1], 1.0);
        $m!(candelas, [0, 0, 0, 0, 0, 0, 1], 1.0);
        $m!(exacandela, [0, 0, 0, 0, 0, 0, 1], 1e+18);
        $m!(exacandelas, [0, 0, 0, 0, 0, 0, 1], 1e+18);
        $m!(petacandela, [0, 0, 0, 0, 0, 0, 1], 1000000000000000.0);
        $m!(petacandelas, [0, 0, 0, 0, 0, 0, 1], 1000000000000000.0);
        $m!(teracandela, [0, 0, 0, 0, 0, 0, 1], 1000000000000.0);
        $m!(teracandelas, [0, 0, 0, 0, 0, 0, 1], 1000000000000.0);
        $m!(gigacandela, [0, 0, 0, 0, 0, 0, 1], 1000000000.0);
        $m!(gigacandelas, [0, 0, 0, 0, 0, 0, 1], 1000000000.0);
        $m!(megacandela, [0, 0, 0, 0, 0, 0, 1], 1000000.0);
        $m!(megacandelas, [0, 0, 0, 0, 0, 0, 1], 1000000.0);
        $m!(kilocandela, [0, 0, 0, 0, 0, 0, 1], 1000.0);
        $m!(kilocandelas, [0, 0, 0, 0, 0, 0, 1], 1000.0);
        $m!(hectocandela, [0, 0, 0, 0, 0, 0, 1], 100.0);
        $m!(hectocandelas, [0, 0, 0, 0, 0, 0, 1], 100.0);
        $m!(decacandela, [0, 0, 0, 0, 0, 0, 1], 10.0);
        $m!(decacandelas, [0, 0, 0, 0, 0, 0, 1], 10.0);
        $m!(decicandela, [0, 0, 0, 0, 0, 0, 1], 0.1);
        $m!(decicandelas, [0, 0, 0, 0, 0, 0, 1], 0.1);
        $m!(centicandela, [0, 0, 0, 0, 0, 0, 1], 0.01);
        $m!(centicandelas, [0, 0, 0, 0, 0, 0, 1], 0.01);
        $m!(millicandela, [0, 0, 0, 0, 0, 0, 1], 0.001);
        $m!(millicandelas, [0, 0, 0, 0, 0, 0, 1], 0.001);
        $m!(microcandela, [0, 0, 0, 0, 0, 0, 1], 1e-06);
        $m!(microcandelas, [0, 0, 0, 0, 0, 0, 1], 1e-06);
        $m!(nanocandela, [0, 0, 0, 0, 0, 0, 1], 1e-09);
        $m!(nanocandelas, [0, 0, 0, 0, 0, 0, 1], 1e-09);
        $m!(picocandela, [0, 0, 0, 0, 0, 0, 1], 1e-12);
        $m!(picocandelas, [0, 0, 0, 0, 0, 0, 1], 1e-12);
        $m!(femtocandela, [0, 0, 0, 0, 0, 0, 1], 1e-15);
        $m!(femtocandelas, [0, 0, 0, 0, 0, 0, 1], 1e-15);
        $m!(attocandela, [0, 0, 0, 0, 0, 0, 1], 1e-18);
        $m!(attocandelas, [0, 0, 0, 0, 0, 0, 1], 1e-18);
        $m!(radian, [0, 0, 0, 0, 0, 0, 0], 1.0);
        $m!(radians, [0, 0, 0, 0, 0, 0, 0], 1.0);
        $m!(exaradian, [0, 0, 0, 0, 0, 0, 0], 1e+18);
        $m!(exaradians, [0, 0, 0, 0, 0, 0, 0], 1e+18);
        $m!(petaradian, [0, 0, 0, 0, 0, 0, 0], 1000000000000000.0);
        $m!(petaradians, [0, 0, 0, 0, 0, 0, 0], 1000000000000000.0);
        $m!(teraradian, [0, 0, 0, 0, 0, 0, 0], 1000000000000.0);
        $m!(teraradians, [0, 0, 0, 0, 0, 0, 0], 1000000000000.0);
        $m!(gigaradian, [0, 0, 0, 0, 0, 0, 0], 1000000000.0);
        $m!(gigaradians, [0, 0, 0, 0, 0, 0, 0], 1000000000.0);
        $m!(megaradian, [0, 0, 0, 0, 0, 0, 0], 1000000.0);
        $m!(megaradians, [0, 0, 0, 0, 0, 0, 0], 1000000.0);
        $m!(kiloradian, [0, 0, 0, 0, 0, 0, 0], 1000.0);
        $m!(kiloradians, [0, 0, 0, 0, 0, 0, 0], 1000.0);
        $m!(hectoradian, [0, 0, 0, 0, 0, 0, 0], 100.0);
        $m!(hectoradians, [0, 0, 0, 0, 0, 0, 0], 100.0);
        $m!(decaradian, [0, 0, 0, 0, 0, 0, 0], 10.0);
        $m!(decaradians, [0, 0, 0, 0, 0, 0, 0], 10.0);
        $m!(deciradian, [0, 0, 0, 0, 0, 0, 0], 0.1);
        $m!(deciradians, [0, 0, 0, 0, 0, 0, 0], 0.1);
        $m!(centiradian, [0, 0, 0, 0, 0, 0, 0], 0.01);
        $m!(centiradians, [0, 0, 0, 0, 0, 0, 0], 0.01);
        $m!(milliradian, [0, 0, 0, 0, 0, 0, 0], 0.001);
        $m!(milliradians, [0, 0, 0, 0, 0, 0, 0], 0.001);
        $m!(microradian, [0, 0, 0, 0, 0, 0, 0], 1e-06);
        $m!(microradians, [0, 0, 0, 0, 0, 0, 0], 1e-06);
        $m!(nanoradian, [0, 0, 0, 0, 0, 0, 0], 1e-09);
        $m!(nanoradians, [0, 0, 0, 0, 0, 0, 0], 1e-09);
        $m!(picoradian, [0, 0, 0, 0, 0, 0, 0], 1e-12);
        $m!(picoradians, [0, 0, 0, 0, 0, 0, 0], 1e-12);
        $m!(femtoradian, [0, 0, 0, 0, 0, 0, 0], 1e-15);
        $m!(femtoradians, [0, 0, 0, 0, 0, 0, 0], 1e-15);
        $m!(attoradian, [0, 0, 0, 0, 0, 0, 0], 1e-18);
        $m!(attoradians, [0, 0, 0, 0, 0, 0, 0], 1e-18);
        $m!(steradian, [0, 0, 0, 0, 0, 0, 0], 1.0);
        $m!(steradians, [0, 0, 0, 0, 0, 0, 0], 1.0);
        $m!(exasteradian, [0, 0, 0, 0, 0, 0, 0], 1e+18);
        $m!(exasteradians, [0, 0, 0, 0, 0, 0, 0], 1e+18);
        $m!(petasteradian, [0, 0, 0, 0, 0, 0, 0], 1000000000000000.0);
        $m!(petasteradians, [0, 0, 0, 0, 0, 0, 0], 1000000000000000.0);
        $m!(terasteradian, [0, 0, 0, 0, 0, 0, 0], 1000000000000.0);
        $m!(terasteradians, [0, 0, 0, 0, 0, 0, 0], 1000000000000.0);
        $m!(gigasteradian, [0, 0, 0, 0, 0, 0, 0], 1000000000.0);
        $m!(gigasteradians, [0, 0, 0, 0, 0, 0, 0], 1000000000.0);
        $m!(megasteradian, [0, 0, 0, 0, 0, 0, 0], 1000000.0);
        $m!(megasteradians, [0, 0, 0, 0, 0, 0, 0], 1000000.0);
        $m!(kilosteradian, [0, 0, 0, 0, 0, 0, 0], 1000.0);
        $m!(kilosteradians, [0, 0, 0, 0, 0, 0, 0], 1000.0);
        $m!(hectosteradian, [0, 0, 0, 0, 0, 0, 0], 100.0);
        $m!(hectosteradians, [0, 0, 0, 0, 0, 0, 0], 100.0);
        $m!(decasteradian, [0, 0, 0, 0, 0, 0, 0], 10.0);
        $m!(decasteradians, [0, 0, 0, 0, 0, 0, 0], 10.0);
        $m!(decisteradian, [0, 0, 0, 0, 0, 0, 0], 0.1);
        $m!(decisteradians, [0, 0, 0, 0, 0, 0, 0], 0.1);
        $m!(centisteradian, [0, 0, 0, 0, 0, 0, 0], 0.01);
        $m!(centisteradians, [0, 0, 0, 0, 0, 0, 0], 0.01);
        $m!(millisteradian, [0, 0, 0, 0, 0, 0, 0], 0.001);
        $m!(millisteradians, [0, 0, 0, 0, 0, 0, 0], 0.001);
        $m!(microsteradian, [0, 0, 0, 0, 0, 0, 0], 1e-06);
        $m!(microsteradians, [0, 0, 0, 0, 0, 0, 0], 1e-06);
        $m!(nanosteradian, [0, 0, 0, 0, 0, 0, 0], 1e-09);
        $m!(nanosteradians, [0, 0, 0, 0, 0, 0, 0], 1e-09);
        $m!(picosteradian, [0, 0, 0, 0, 0, 0, 0], 1e-12);
        $m!(picosteradians, [0, 0, 0, 0, 0, 0, 0], 1e-12);
        $m!(femtosteradian, [0, 0, 0, 0, 0, 0, 0], 1e-15);
        $m!(femtosteradians, [0, 0, 0, 0, 0, 0, 0], 1e-15);
        $m!(attosteradian, [0, 0, 0, 0, 0, 0, 0], 1e-18);
        $m!(attosteradians, [0, 0, 0, 0, 0, 0, 0], 1e-18);
        $m!(hertz, [0, -1, 0, 0, 0, 0, 0], 1.0);
        $m!(exahertz, [0, -1, 0, 0, 0, 0, 0], 1e+18);
        $m!(petahertz, [0, -1, 0, 0, 0, 0, 0], 1000000000000000.0);
        $m!(terahertz, [0, -1, 0, 0, 0, 0, 0], 1000000000000.0);
        $m!(gigahertz, [0, -1, 0, 0, 0, 0, 0], 1000000000.0);
        $m!(megahertz, [0, -1, 0, 0, 0, 0, 0], 1000000.0);
        $m!(kilohertz, [0, -1, 0, 0, 0, 0, 0], 1000.0);
        $m!(hectohertz, [0, -1, 0, 0, 0, 0, 0], 100.0);
        $m!(decahertz, [0, -1, 0, 0, 0, 0, 0], 10.0);
        $m!(decihertz, [0, -1, 0, 0, 0, 0, 0], 0.1);
        $m!(centihertz, [0, -1, 0, 0, 0, 0, 0], 0.01);
        $m!(millihertz, [0, -1, 0, 0, 0, 0, 0], 0.001);
        $m!(microhertz, [0, -1, 0, 0, 0, 0, 0], 1e-06);
        $m!(nanohertz, [0, -1, 0, 0, 0, 0, 0], 1e-09);
        $m!(picohertz, [0, -1, 0, 0, 0, 0, 0], 1e-12);
        $m!(femtohertz, [0, -1, 0, 0, 0, 0, 0], 1e-15);
        $m!(attohertz, [0, -1, 0, 0, 0, 0, 0], 1e-18);
        $m!(newton, [1, -2, 1, 0, 0, 0, 0], 1.0);
        $m!(newtons, [1, -2, 1, 0, 0, 0, 0], 1.0);
        $m!(exanewton, [1, -2, 1, 0, 0, 0, 0], 1e+18);
        $m!(exanewtons, [1, -2, 1, 0, 0, 0, 0], 1e+18);
        $m!(petanewton, [1, -2, 1, 0, 0, 0, 0], 1000000000000000.0);
        $m!(petanewtons, [1, -2, 1, 0, 0, 0, 0], 1000000000000000.0);
        $m!(teranewton, [1, -2, 1, 0, 0, 0, 0], 1000000000000.0);
        $m!(teranewtons, [1, -2, 1, 0, 0, 0, 0], 1000000000000.0);
        $m!(giganewton, [1, -2, 1, 0, 0, 0, 0], 1000000000.0);
        $m!(giganewtons, [1, -2, 1, 0, 0, 0, 0], 1000000000.0);
        $m!(meganewton, [1, -2, 1, 0, 0, 0, 0], 1000000.0);
        $m!(meganewtons, [1, -2, 1, 0, 0, 0, 0], 1000000.0);
        $m!(kilonewton, [1, -2, 1, 0, 0, 0, 0], 1000.0);
        $m!(kilonewtons, [1, -2, 1, 0, 0, 0, 0], 1000.0);
        $m!(hectonewton, [1, -2, 1, 0, 0, 0, 0], 100.0);
        $m!(hectonewtons, [1, -2, 1, 0, 0, 0, 0], 100.0);
        $m!(decanewton, [1, -2, 1, 0, 0, 0, 0], 10.0);
        $m!(decanewtons, [1, -2, 1, 0, 0, 0, 0], 10.0);
        $m!(decinewton, [1, -2, 1, 0, 0, 0, 0], 0.1);
        $m!(decinewtons, [1, -2, 1, 0, 0, 0, 0], 0.1);
        $m!(centinewton, [1, -2, 1, 0, 0, 0, 0], 0.01);
        $m!(centinewtons, [1, -2, 1, 0, 0, 0, 0], 0.01);
        $m!(millinewton, [1, -2, 1, 0, 0, 0, 0], 0.001);
        $m!(millinewtons, [1, -2, 1, 0, 0, 0, 0], 0.001);
        $m!(micronewton, [1, -2, 1, 0, 0, 0, 0], 1e-06);
        $m!(micronewtons, [1, -2, 1, 0, 0, 0, 0], 1e-06);
        $m!(nanonewton, [1, -2, 1, 0, 0, 0, 0], 1e-09);
        $m!(nanonewtons, [1, -2, 1, 0, 0, 0, 0], 1e-09);
        $m!(piconewton, [1, -2, 1, 0, 0, 0, 0], 1e-12);
        $m!(piconewtons, [1, -2, 1, 0, 0, 0, 0], 1e-12);
        $m!(femtonewton, [1, -2, 1, 0, 0, 0, 0], 1e-15);
        $m!(femtonewtons, [1, -2, 1, 0, 0, 0, 0], 1e-15);
        $m!(attonewton, [1, -2, 1, 0, 0, 0, 0], 1e-18);
        $m!(attonewtons, [1, -2, 1, 0, 0, 0, 0], 1e-18);
        $m!(pascal, [-1, -2, 1, 0, 0, 0, 0], 1.0);
        $m!(pascals, [-1, -2, 1, 0, 0, 0, 0], 1.0);
        $m!(exapascal, [-1, -2, 1, 0, 0, 0, 0], 1e+18);
        $m!(exapascals, [-1, -2, 1, 0, 0, 0, 0], 1e+18);
        $m!(petapascal, [-1, -2, 1, 0, 0, 0, 0], 1000000000000000.0);
        $m!(petapascals, [-1, -2, 1, 0, 0, 0, 0], 1000000000000000.0);
        $m!(terapascal, [-1, -2, 1, 0, 0, 0, 0], 1000000000000.0);
        $m!(terapascals, [-1, -2, 1, 0, 0, 0, 0], 1000000000000.0);
        $m!(gigapascal, [-1, -2, 1, 0, 0, 0, 0], 1000000000.0);
        $m!(gigapascals, [-1, -2, 1, 0, 0, 0, 0], 1000000000.0);
        $m!(megapascal, [-1, -2, 1, 0, 0, 0, 0], 1000000.0);
        $m!(megapascals, [-1, -2, 1, 0, 0, 0, 0], 1000000.0);
        $m!(kilopascal, [-1, -2, 1, 0, 0, 0, 0], 1000.0);
        $m!(kilopascals, [-1, -2, 1, 0, 0, 0, 0], 1000.0);
        $m!(hectopascal, [-1, -2, 1, 0, 0, 0, 0], 100.0);
        $m!(hectopascals, [-1, -2, 1, 0, 0, 0, 0], 100.0);
        $m!(decapascal, [-1, -2, 1, 0, 0, 0, 0], 10.0);
        $m!(decapascals, [-1, -2, 1, 0, 0, 0, 0], 10.0);
        $m!(decipascal, [-1, -2, 1, 0, 0, 0, 0], 0.1);
        $m!(decipascals, [-1, -2, 1, 0, 0, 0, 0], 0.1);
        $m!(centipascal, [-1, -2, 1, 0, 0, 0, 0], 0.01);
        $m!(centipascals, [-1, -2, 1, 0, 0, 0, 0], 0.01);
        $m!(millipascal, [-1, -2, 1, 0, 0, 0, 0], 0.001);
        $m!(millipascals, [-1, -2, 1, 0, 0, 0, 0], 0.001);
        $m!(micropascal, [-1, -2, 1, 0, 0, 0, 0], 1e-06);
        $m!(micropascals, [-1, -2, 1, 0, 0, 0, 0], 1e-06);
        $m!(nanopascal, [-1, -2, 1, 0, 0, 0, 0], 1e-09);
        $m!(nanopascals, [-1, -2, 1, 0, 0, 0, 0], 1e-09);
        $m!(picopascal, [-1, -2, 1, 0, 0, 0, 0], 1e-12);
        $m!(picopascals, [-1, -2, 1, 0, 0, 0, 0], 1e-12);
        $m!(femtopascal, [-1, -2, 1, 0, 0, 0, 0], 1e-15);
        $m!(femtopascals, [-1, -2, 1, 0, 0, 0, 0], 1e-15);
        $m!(attopascal, [-1, -2, 1, 0, 0, 0, 0], 1e-18);
        $m!(attopascals, [-1, -2, 1, 0, 0, 0, 0], 1e-18);
        $m!(joule, [2, -2, 1, 0, 0, 0, 0], 1.0);
        $m!(joules, [2, -2, 1, 0, 0, 0, 0], 1.0);
        $m!(exajoule, [2, -2, 1, 0, 0, 0, 0], 1e+18);
        $m!(exajoules, [2, -2, 1, 0, 0, 0, 0], 1e+18);
        $m!(petajoule, [2, -2, 1, 0, 0, 0, 0], 1000000000000000.0);
        $m!(petajoules, [2, -2, 1, 0, 0, 0, 0], 1000000000000000.0);
        $m!(terajoule, [2, -2, 1, 0, 0, 0, 0], 1000000000000.0);
        $m!(terajoules, [2, -2, 1, 0, 0, 0, 0], 1000000000000.0);
        $m!(gigajoule, [2, -2, 1, 0, 0, 0, 0], 1000000000.0);
        $m!(gigajoules, [2, -2, 1, 0, 0, 0, 0], 1000000000.0);
        $m!(megajoule, [2, -2, 1, 0, 0, 0, 0], 1000000.0);
        $m!(megajoules, [2, -2, 1, 0, 0, 0, 0], 1000000.0);
        $m!(kilojoule, [2, -2, 1, 0, 0, 0, 0], 1000.0);
        $m!(kilojoules, [2, -2, 1, 0, 0, 0, 0], 1000.0);
        $m!(hectojoule, [2, -2, 1, 0, 0, 0, 0], 100.0);
        $m!(hectojoules, [2, -2, 1, 0, 0, 0, 0], 100.0);
        $m!(decajoule, [2, -2, 1, 0, 0, 0, 0], 10.0);
        $m!(decajoules, [2, -2, 1, 0, 0, 0, 0], 10.0);
        $m!(decijoule, [2, -2, 1, 0, 0, 0, 0], 0.1);
        $m!(decijoules, [2, -2, 1, 0, 0, 0, 0], 0.1);
        $m!(centijoule, [2, -2, 1, 0, 0, 0, 0], 0.01);
        $m!(centijoules, [2, -2, 1, 0, 0, 0, 0], 0.01);
        $m!(millijoule, [2, -2, 1, 0, 0, 0, 0], 0.001);
        $m!(millijoules, [2, -2, 1, 0, 0, 0, 0], 0.001);
        $m!(microjoule, [2, -2, 1, 0, 0, 0, 0], 1e-06);
        $m!(microjoules, [2, -2, 1, 0, 0, 0, 0], 1e-06);
        $m!(nanojoule, [2, -2, 1, 0, 0, 0, 0], 1e-09);
        $m!(nanojoules, [2, -2, 1, 0, 0, 0, 0], 1e-09);
        $m!(picojoule, [2, -2, 1, 0, 0, 0, 0], 1e-12);
        $m!(picojoules, [2, -2, 1, 0, 0, 0, 0], 1e-12);
        $m!(femtojoule, [2, -2, 1, 0, 0, 0, 0], 1e-15);
        $m!(femtojoules, [2, -2, 1, 0, 0, 0, 0], 1e-15);
        $m!(attojoule, [2, -2, 1, 0, 0, 0, 0], 1e-18);
        $m!(attojoules, [2, -2, 1, 0, 0, 0, 0], 1e-18);
        $m!(watt, [2, -3, 1, 0, 0, 0, 0], 1.0);
        $m!(watts, [2, -3, 1, 0, 0, 0, 0], 1.0);
        $m!(exawatt, [2, -3, 1, 0, 0, 0, 0], 1e+18);
        $m!(exawatts, [2, -3, 1, 0, 0, 0, 0], 1e+18);
        $m!(petawatt, [2, -3, 1, 0, 0, 0, 0], 1000000000000000.0);
        $m!(petawatts, [2, -3, 1, 0, 0, 0, 0], 1000000000000000.0);
        $m!(terawatt, [2, -3, 1, 0, 0, 0, 0], 1000000000000.0);
        $m!(terawatts, [2, -3, 1, 0, 0, 0, 0], 1000000000000.0);
        $m!(gigawatt, [2, -3, 1, 0, 0, 0, 0], 1000000000.0);
        $m!(gigawatts, [2, -3, 1, 0, 0, 0, 0], 1000000000.0);
        $m!(megawatt, [2, -3, 1, 0, 0, 0, 0], 1000000.0);
        $m!(megawatts, [2, -3, 1, 0, 0, 0, 0], 1000000.0);
        $m!(kilowatt, [2, -3, 1, 0, 0, 0, 0], 1000.0);
        $m!(kilowatts, [2, -3, 1, 0, 0, 0, 0], 1000.0);
        $m!(hectowatt, [2, -3, 1, 0, 0, 0, 0], 100.0);
        $m!(hectowatts, [2, -3, 1, 0, 0, 0, 0], 100.0);
        $m!(decawatt, [2, -3, 1, 0, 0, 0, 0], 10.0);
        $m!(decawatts, [2, -3, 1, 0, 0, 0, 0], 10.0);
        $m!(deciwatt, [2, -3, 1, 0, 0, 0, 0], 0.1);
        $m!(deciwatts, [2, -3, 1, 0, 0, 0, 0], 0.1);
        $m!(centiwatt, [2, -3, 1, 0, 0, 0, 0], 0.01);
        $m!(centiwatts, [2, -3, 1, 0, 0, 0, 0], 0.01);
        $m!(milliwatt, [2, -3, 1, 0, 0, 0, 0], 0.001);
        $m!(milliwatts, [2, -3, 1, 0, 0, 0, 0], 0.001);
        $m!(microwatt, [2, -3, 1, 0, 0, 0, 0], 1e-06);
        $m!(microwatts, [2, -3, 1, 0, 0, 0, 0], 1e-06);
        $m!(nanowatt, [2, -3, 1, 0, 0, 0, 0], 1e-09);
        $m!(nanowatts, [2, -3, 1, 0, 0, 0, 0], 1e-09);
        $m!(picowatt, [2, -3, 1, 0, 0, 0, 0], 1e-12);
        $m!(picowatts, [2, -3, 1, 0, 0, 0, 0], 1e-12);
        $m!(femtowatt, [2, -3, 1, 0, 0, 0, 0], 1e-15);
        $m!(femtowatts, [2, -3, 1, 0, 0, 0, 0], 1e-15);
        $m!(attowatt, [2, -3, 1, 0, 0, 0, 0], 1e-18);
        $m!(attowatts, [2, -3, 1, 0, 0, 0, 0], 1e-18);
        $m!(coulomb, [0, 1, 0, 0, 1, 0, 0], 1.0);
        $m!(coulombs, [0, 1, 0, 0, 1, 0, 0], 1.0);
        $m!(exacoulomb, [0, 1, 0, 0, 1, 0, 0], 1e+18);
        $m!(exacoulombs, [0, 1, 0, 0, 1, 0, 0], 1e+18);
        $m!(petacoulomb, [0, 1, 0, 0, 1, 0, 0], 1000000000000000.0);
        $m!(petacoulombs, [0, 1, 0, 0, 1, 0, 0], 1000000000000000.0);
        $m!(teracoulomb, [0, 1, 0, 0, 1, 0, 0], 1000000000000.0);
        $m!(teracoulombs, [0, 1, 0, 0, 1, 0, 0], 1000000000000.0);
        $m!(gigacoulomb, [0, 1, 0, 0, 1, 0, 0], 1000000000.0);
        $m!(gigacoulombs, [0, 1, 0, 0, 1, 0, 0], 1000000000.0);
        $m!(megacoulomb, [0, 1, 0, 0, 1, 0, 0], 1000000.0);
        $m!(megacoulombs, [0, 1, 0, 0, 1, 0, 0], 1000000.0);
        $m!(kilocoulomb, [0, 1, 0, 0, 1, 0, 0], 1000.0);
        $m!(kilocoulombs, [0, 1, 0, 0, 1, 0, 0], 1000.0);
        $m!(hectocoulomb, [0, 1, 0, 0, 1, 0, 0], 100.0);
        $m!(hectocoulombs, [0, 1, 0, 0, 1, 0, 0], 100.0);
        $m!(decacoulomb, [0, 1, 0, 0, 1, 0, 0], 10.0);
        $m!(decacoulombs, [0, 1, 0, 0, 1, 0, 0], 10.0);
        $m!(decicoulomb, [0, 1, 0, 0, 1, 0, 0], 0.1);
        $m!(decicoulombs, [0, 1, 0, 0, 1, 0, 0], 0.1);
        $m!(centicoulomb, [0, 1, 0, 0, 1, 0, 0], 0.01);
        $m!(centicoulombs, [0, 1, 0, 0, 1, 0, 0], 0.01);
        $m!(millicoulomb, [0, 1, 0, 0, 1, 0, 0], 0.001);
        $m!(millicoulombs, [0, 1, 0, 0, 1, 0, 0], 0.001);
        $m!(microcoulomb, [0, 1, 0, 0, 1, 0, 0], 1e-06);
        $m!(microcoulombs, [0, 1, 0, 0, 1, 0, 0], 1e-06);
        $m!(nanocoulomb, [0, 1, 0, 0, 1, 0, 0], 1e-09);
        $m!(nanocoulombs, [0, 1, 0, 0, 1, 0, 0], 1e-09);
        $m!(picocoulomb, [0, 1, 0, 0, 1, 0, 0], 1e-12);
        $m!(picocoulombs, [0, 1, 0, 0, 1, 0, 0], 1e-12);
        $m!(femtocoulomb, [0, 1, 0, 0, 1, 0, 0], 1e-15);
        $m!(femtocoulombs, [0, 1, 0, 0, 1, 0, 0], 1e-15);
        $m!(attocoulomb, [0, 1, 0, 0, 1, 0, 0], 1e-18);
        $m!(attocoulombs, [0, 1, 0, 0, 1, 0, 0], 1e-18);
        $m!(volt, [2, -3, 1, 0, -1, 0, 0], 1.0);
        $m!(volts, [2, -3, 1, 0, -1, 0, 0], 1.0);
        $m!(exavolt, [2, -3, 1, 0, -1, 0, 0], 1e+18);
        $m!(exavolts, [2, -3, 1, 0, -1, 0, 0], 1e+18);
        $m!(petavolt, [2, -3, 1, 0, -1, 0, 0], 1000000000000000.0);
        $m!(petavolts, [2, -3, 1, 0, -1, 0, 0], 1000000000000000.0);
        $m!(teravolt, [2, -3, 1, 0, -1, 0, 0], 1000000000000.0);
        $m!(teravolts, [2, -3, 1, 0, -1, 0, 0], 1000000000000.0);
        $m!(gigavolt, [2, -3, 1, 0, -1, 0, 0], 1000000000.0);
        $m!(gigavolts, [2, -3, 1, 0, -1, 0, 0], 1000000000.0);
        $m!(megavolt, [2, -3, 1, 0, -1, 0, 0], 1000000.0);
        $m!(megavolts, [2, -3, 1, 0, -1, 0, 0], 1000000.0);
        $m!(kilovolt, [2, -3, 1, 0, -1, 0, 0], 1000.0);
        $m!(kilovolts, [2, -3, 1, 0, -1, 0, 0], 1000.0);
        $m!(hectovolt, [2, -3, 1, 0, -1, 0, 0], 100.0);
        $m!(hectovolts, [2, -3, 1, 0, -1, 0, 0], 100.0);
        $m!(decavolt, [2, -3, 1, 0, -1, 0, 0], 10.0);
        $m!(decavolts, [2, -3, 1, 0, -1, 0, 0], 10.0);
        $m!(decivolt, [2, -3, 1, 0, -1, 0, 0], 0.1);
        $m!(decivolts, [2, -3, 1, 0, -1, 0, 0], 0.1);
        $m!(centivolt, [2, -3, 1, 0, -1, 0, 0], 0.01);
        $m!(centivolts, [2, -3, 1, 0, -1, 0, 0], 0.01);
        $m!(millivolt, [2, -3, 1, 0, -1, 0, 0], 0.001);
        $m!(millivolts, [2, -3, 1, 0, -1, 0, 0], 0.001);
        $m!(microvolt, [2, -3, 1, 0, -1, 0, 0], 1e-06);
        $m!(microvolts, [2, -3, 1, 0, -1, 0, 0], 1e-06);
        $m!(nanovolt, [2, -3, 1, 0, -1, 0, 0], 1e-09);
        $m!(nanovolts, [2, -3, 1, 0, -1, 0, 0], 1e-09);
        $m!(picovolt, [2, -3, 1, 0, -1, 0, 0], 1e-12);
        $m!(picovolts, [2, -3, 1, 0, -1, 0, 0], 1e-12);
        $m!(femtovolt, [2, -3, 1, 0, -1, 0, 0], 1e-15);
        $m!(femtovolts, [2, -3, 1, 0, -1, 0, 0], 1e-15);
        $m!(attovolt, [2, -3, 1, 0, -1, 0, 0], 1e-18);
        $m!(attovolts, [2, -3, 1, 0, -1, 0, 0], 1e-18);
        $m!(farad, [-2, 4, -1, 0, 2, 0, 0], 1.0);
        $m!(farads, [-2, 4, -1, 0, 2, 0, 0], 1.0);
        $m!(exafarad, [-2, 4, -1, 0, 2, 0, 0], 1e+18);
        $m!(exafarads, [-2, 4, -1, 0, 2, 0, 0], 1e+18);
        $m!(petafarad, [-2, 4, -1, 0, 2, 0, 0], 1000000000000000.0);
        $m!(petafarads, [-2, 4, -1, 0, 2, 0, 0], 1000000000000000.0);
        $m!(terafarad, [-2, 4, -1, 0, 2, 0, 0], 1000000000000.0);
        $m!(terafarads, [-2, 4, -1, 0, 2, 0, 0], 1000000000000.0);
        $m!(gigafarad, [-2, 4, -1, 0, 2, 0, 0], 1000000000.0);
        $m!(gigafarads, [-2, 4, -1, 0, 2, 0, 0], 1000000000.0);
        $m!(megafarad, [-2, 4, -1, 0, 2, 0, 0], 1000000.0);
        $m!(megafarads, [-2, 4, -1, 0, 2, 0, 0], 1000000.0);
        $m!(kilofarad, [-2, 4, -1, 0, 2, 0, 0], 1000.0);
        $m!(kilofarads, [-2, 4, -1, 0, 2, 0, 0], 1000.0);
        $m!(hectofarad, [-2, 4, -1, 0, 2, 0, 0], 100.0);
        $m!(hectofarads, [-2, 4, -1, 0, 2, 0, 0], 100.0);
        $m!(decafarad, [-2, 4, -1, 0, 2, 0, 0], 10.0);
        $m!(decafarads, [-2, 4, -1, 0, 2, 0, 0], 10.0);
        $m!(decifarad, [-2, 4, -1, 0, 2, 0, 0], 0.1);
        $m!(decifarads, [-2, 4, -1, 0, 2, 0, 0], 0.1);
        $m!(centifarad, [-2, 4, -1, 0, 2, 0, 0], 0.01);
        $m!(centifarads, [-2, 4, -1, 0, 2, 0, 0], 0.01);
        $m!(millifarad, [-2, 4, -1, 0, 2, 0, 0], 0.001);
        $m!(millifarads, [-2, 4, -1, 0, 2, 0, 0], 0.001);
        $m!(microfarad, [-2, 4, -1, 0, 2, 0, 0], 1e-06);
        $m!(microfarads, [-2, 4, -1, 0, 2, 0, 0], 1e-06);
        $m!(nanofarad, [-2, 4, -1, 0, 2, 0, 0], 1e-09);
        $m!(nanofarads, [-2, 4, -1, 0, 2, 0, 0], 1e-09);
        $m!(picofarad, [-2, 4, -1, 0, 2, 0, 0], 1e-12);
        $m!(picofarads, [-2, 4, -1, 0, 2, 0, 0], 1e-12);
        $m!(femtofarad, [-2, 4, -1, 0, 2, 0, 0], 1e-15);
        $m!(femtofarads, [-2, 4, -1, 0, 2, 0, 0], 1e-15);
        $m!(attofarad, [-2, 4, -1, 0, 2, 0, 0], 1e-18);
        $m!(attofarads, [-2, 4, -1, 0, 2, 0, 0], 1e-18);
        $m!(ohm, [2, -3, 1, 0, -2, 0, 0], 1.0);
        $m!(ohms, [2, -3, 1, 0, -2, 0, 0], 1.0);
        $m!(exaohm, [2, -3, 1, 0, -2, 0, 0], 1e+18);
        $m!(exaohms, [2, -3, 1, 0, -2, 0, 0], 1e+18);
        $m!(petaohm, [2, -3, 1, 0, -2, 0, 0], 1000000000000000.0);
        $m!(petaohms, [2, -3, 1, 0, -2, 0, 0], 1000000000000000.0);
        $m!(teraohm, [2, -3, 1, 0, -2, 0, 0], 1000000000000.0);
        $m!(teraohms, [2, -3, 1, 0, -2, 0, 0], 1000000000000.0);
        $m!(gigaohm, [2, -3, 1, 0, -2, 0, 0], 1000000000.0);
        $m!(gigaohms, [2, -3, 1, 0, -2, 0, 0], 1000000000.0);
        $m!(megaohm, [2, -3, 1, 0, -2, 0, 0], 1000000.0);
        $m!(megaohms, [2, -3, 1, 0, -2, 0, 0], 1000000.0);
        $m!(kiloohm, [2, -3, 1, 0, -2, 0, 0], 1000.0);
        $m!(kiloohms, [2, -3, 1, 0, -2, 0, 0], 1000.0);
        $m!(hectoohm, [2, -3, 1, 0, -2, 0, 0], 100.0);
        $m!(hectoohms, [2, -3, 1, 0, -2, 0, 0], 100.0);
        $m!(decaohm, [2, -3, 1, 0, -2, 0, 0], 10.0);
        $m!(decaohms, [2, -3, 1, 0, -2, 0, 0], 10.0);
        $m!(deciohm, [2, -3, 1, 0, -2, 0, 0], 0.1);
        $m!(deciohms, [2, -3, 1, 0, -2, 0, 0], 0.1);
        $m!(centiohm, [2, -3, 1, 0, -2, 0, 0], 0.01);
        $m!(centiohms, [2, -3, 1, 0, -2, 0, 0], 0.01);
        $m!(milliohm, [2, -3, 1, 0, -2, 0, 0], 0.001);
        $m!(milliohms, [2, -3, 1, 0, -2, 0, 0], 0.001);
        $m!(microohm, [2, -3, 1, 0, -2, 0, 0], 1e-06);
        $m!(microohms, [2, -3, 1, 0, -2, 0, 0], 1e-06);
        $m!(nanoohm, [2, -3, 1, 0, -2, 0, 0], 1e-09);
        $m!(nanoohms, [2, -3, 1, 0, -2, 0, 0], 1e-09);
        $m!(picoohm, [2, -3, 1, 0, -2, 0, 0], 1e-12);
        $m!(picoohms, [2, -3, 1, 0, -2, 0, 0], 1e-12);
        $m!(femtoohm, [2, -3, 1, 0, -2, 0, 0], 1e-15);
        $m!(femtoohms, [2, -3, 1, 0, -2, 0, 0], 1e-15);
        $m!(attoohm, [2, -3, 1, 0, -2, 0, 0], 1e-18);
        $m!(attoohms, [2, -3, 1, 0, -2, 0, 0], 1e-18);
        $m!(siemens, [-2, 3, -1, 0, 2, 0, 0], 1.0);
        $m!(exasiemens, [-2, 3, -1, 0, 2, 0, 0], 1e+18);
        $m!(petasiemens, [-2, 3, -1, 0, 2, 0, 0], 1000000000000000.0);
        $m!(terasiemens, [-2, 3, -1, 0, 2, 0, 0], 1000000000000.0);
        $m!(gigasiemens, [-2, 3, -1, 0, 2, 0, 0], 1000000000.0);
        $m!(megasiemens, [-2, 3, -1, 0, 2, 0, 0], 1000000.0);
        $m!(kilosiemens, [-2, 3, -1, 0, 2, 0, 0], 1000.0);
        $m!(hectosiemens, [-2, 3, -1, 0, 2, 0, 0], 100.0);
        $m!(decasiemens, [-2, 3, -1, 0, 2, 0, 0], 10.0);
        $m!(decisiemens, [-2, 3, -1, 0, 2, 0, 0], 0.1);
        $m!(centisiemens, [-2, 3, -1, 0, 2, 0, 0], 0.01);
        $m!(millisiemens, [-2, 3, -1, 0, 2, 0, 0], 0.001);
        $m!(microsiemens, [-2, 3, -1, 0, 2, 0, 0], 1e-06);
        $m!(nanosiemens, [-2, 3, -1, 0, 2, 0, 0], 1e-09);
        $m!(picosiemens, [-2, 3, -1, 0, 2, 0, 0], 1e-12);
        $m!(femtosiemens, [-2, 3, -1, 0, 2, 0, 0], 1e-15);
        $m!(attosiemens, [-2, 3, -1, 0, 2, 0, 0], 1e-18);
        $m!(weber, [2, -2, 1, 0, -1, 0, 0], 1.0);
        $m!(webers, [2, -2, 1, 0, -1, 0, 0], 1.0);
        $m!(exaweber, [2, -2, 1, 0, -1, 0, 0], 1e+18);
        $m!(exawebers, [2, -2, 1, 0, -1, 0, 0], 1e+18);
        $m!(petaweber, [2, -2, 1, 0, -1, 0, 0], 1000000000000000.0);
        $m!(petawebers, [2, -2, 1, 0, -1, 0, 0], 1000000000000000.0);
        $m!(teraweber, [2, -2, 1, 0, -1, 0, 0], 1000000000000.0);
        $m!(terawebers, [2, -2, 1, 0, -1, 0, 0], 1000000000000.0);
        $m!(gigaweber, [2, -2, 1, 0, -1, 0, 0], 1000000000.0);
        $m!(gigawebers, [2, -2, 1, 0, -1, 0, 0], 1000000000.0);
        $m!(megaweber, [2, -2, 1, 0, -1, 0, 0], 1000000.0);
        $m!(megawebers, [2, -2, 1, 0, -1, 0, 0], 1000000.0);
        $m!(kiloweber, [2, -2, 1, 0, -1, 0, 0], 1000.0);
        $m!(kilowebers, [2, -2, 1, 0, -1, 0, 0], 1000.0);
        $m!(hectoweber, [2, -2, 1, 0, -1, 0, 0], 100.0);
        $m!(hectowebers, [2, -2, 1, 0, -1, 0, 0], 100.0);
        $m!(decaweber, [2, -2, 1, 0, -1, 0, 0], 10.0);
        $m!(decawebers, [2, -2, 1, 0, -1, 0, 0], 10.0);
        $m!(deciweber, [2, -2, 1, 0, -1, 0, 0], 0.1);
        $m!(deciwebers, [2, -2, 1, 0, -1, 0, 0], 0.1);
        $m!(centiweber, [2, -2, 1, 0, -1, 0, 0], 0.01);
        $m!(centiwebers, [2, -2, 1, 0, -1, 0, 0], 0.01);
        $m!(milliweber, [2, -2, 1, 0, -1, 0, 0], 0.001);
        $m!(milliwebers, [2, -2, 1, 0, -1, 0, 0], 0.001);
        $m!(microweber, [2, -2, 1, 0, -1, 0, 0], 1e-06);
        $m!(microwebers, [2, -2, 1, 0, -1, 0, 0], 1e-06);
        $m!(nanoweber, [2, -2, 1, 0, -1, 0, 0], 1e-09);
        $m!(nanowebers, [2, -2, 1, 0, -1, 0, 0], 1e-09);
        $m!(picoweber, [2, -2, 1, 0, -1, 0, 0], 1e-12);
        $m!(picowebers, [2, -2, 1, 0, -1, 0, 0], 1e-12);
        $m!(femtoweber, [2, -2, 1, 0, -1, 0, 0], 1e-15);
        $m!(femtowebers, [2, -2, 1, 0, -1, 0, 0], 1e-15);
        $m!(attoweber, [2, -2, 1, 0, -1, 0, 0], 1e-18);
        $m!(attowebers, [2, -2, 1, 0, -1, 0, 0], 1e-18);
        $m!(tesla, [0, -2, 1, 0, -1, 0, 0], 1.0);
        $m!(teslas, [0, -2, 1, 0, -1, 0, 0], 1.0);
        $m!(exatesla, [0, -2, 1, 0, -1, 0, 0], 1e+18);
        $m!(exateslas, [0, -2, 1, 0, -1, 0, 0], 1e+18);
        $m!(petatesla, [0, -2, 1, 0, -1, 0, 0], 1000000000000000.0);
        $m!(petateslas, [0, -2, 1, 0, -1, 0, 0], 1000000000000000.0);
        $m!(teratesla, [0, -2, 1, 0, -1, 0, 0], 1000000000000.0);
        $m!(terateslas, [0, -2, 1, 0, -1, 0, 0], 1000000000000.0);
        $m!(gigatesla, [0, -2, 1, 0, -1, 0, 0], 1000000000.0);
        $m!(gigateslas, [0, -2, 1, 0, -1, 0, 0], 1000000000.0);
        $m!(megatesla, [0, -2, 1, 0, -1, 0, 0], 1000000.0);
        $m!(megateslas, [0, -2, 1, 0, -1, 0, 0], 1000000.0);
        $m!(kilotesla, [0, -2, 1, 0, -1, 0, 0], 1000.0);
        $m!(kiloteslas, [0, -2, 1, 0, -1, 0, 0], 1000.0);
        $m!(hectotesla, [0, -2, 1, 0, -1, 0, 0], 100.0);
        $m!(hectoteslas, [0, -2, 1, 0, -1, 0, 0], 100.0);
        $m!(decatesla, [0, -2, 1, 0, -1, 0, 0], 10.0);
        $m!(decateslas, [0, -2, 1, 0, -1, 0, 0], 10.0);
        $m!(decitesla, [0, -2, 1, 0, -1, 0, 0], 0.1);
        $m!(deciteslas, [0, -2, 1, 0, -1, 0, 0], 0.1);
        $m!(centitesla, [0, -2, 1, 0, -1, 0, 0], 0.01);
        $m!(centiteslas, [0, -2, 1, 0, -1, 0, 0], 0.01);
        $m!(millitesla, [0, -2, 1, 0, -1, 0, 0], 0.001);
        $m!(milliteslas, [0, -2, 1, 0, -1, 0, 0], 0.001);
        $m!(microtesla, [0, -2, 1, 0, -1, 0, 0], 1e-06);
        $m!(microteslas, [0, -2, 1, 0, -1, 0, 0], 1e-06);
        $m!(nanotesla, [0, -2, 1, 0, -1, 0, 0], 1e-09);
        $m!(nanoteslas, [0, -2, 1, 0, -1, 0, 0], 1e-09);
        $m!(picotesla, [0, -2, 1, 0, -1, 0, 0], 1e-12);
        $m!(picoteslas, [0, -2, 1, 0, -1, 0, 0], 1e-12);
        $m!(femtotesla, [0, -2, 1, 0, -1, 0, 0], 1e-15);
        $m!(femtoteslas, [0, -2, 1, 0, -1, 0, 0], 1e-15);
        $m!(attotesla, [0, -2, 1, 0, -1, 0, 0], 1e-18);
        $m!(attoteslas, [0, -2, 1, 0, -1, 0, 0], 1e-18);
        $m!(henry, [2, -2, 1, 0, -2, 0, 0], 1.0);
        $m!(henrys, [2, -2, 1, 0, -2, 0, 0], 1.0);
        $m!(exahenry, [2, -2, 1, 0, -2, 0, 0], 1e+18);
        $m!(exahenrys, [2, -2, 1, 0, -2, 0, 0], 1e+18);
        $m!(petahenry, [2, -2, 1, 0, -2, 0, 0], 1000000000000000.0);
        $m!(petahenrys, [2, -2, 1, 0, -2, 0, 0], 1000000000000000.0);
        $m!(terahenry, [2, -2, 1, 0, -2, 0, 0], 1000000000000.0);
        $m!(terahenrys, [2, -2, 1, 0, -2, 0, 0], 1000000000000.0);
        $m!(gigahenry, [2, -2, 1, 0, -2, 0, 0], 1000000000.0);
        $m!(gigahenrys, [2, -2, 1, 0, -2, 0, 0], 1000000000.0);
        $m!(megahenry, [2, -2, 1, 0, -2, 0, 0], 1000000.0);
        $m!(megahenrys, [2, -2, 1, 0, -2, 0, 0], 1000000.0);
        $m!(kilohenry, [2, -2, 1, 0, -2, 0, 0], 1000.0);
        $m!(kilohenrys, [2, -2, 1, 0, -2, 0, 0], 1000.0);
        $m!(hectohenry, [2, -2, 1, 0, -2, 0, 0], 100.0);
        $m!(hectohenrys, [2, -2, 1, 0, -2, 0, 0], 100.0);
        $m!(decahenry, [2, -2, 1, 0, -2, 0, 0], 10.0);
        $m!(decahenrys, [2, -2, 1, 0, -2, 0, 0], 10.0);
        $m!(decihenry, [2, -2, 1, 0, -2, 0, 0], 0.1);
        $m!(decihenrys, [2, -2, 1, 0, -2, 0, 0], 0.1);
        $m!(centihenry, [2, -2, 1, 0, -2, 0, 0], 0.01);
        $m!(centihenrys, [2, -2, 1, 0, -2, 0, 0], 0.01);
        $m!(millihenry, [2, -2, 1, 0, -2, 0, 0], 0.001);
        $m!(millihenrys, [2, -2, 1, 0, -2, 0, 0], 0.001);
        $m!(microhenry, [2, -2, 1, 0, -2, 0, 0], 1e-06);
        $m!(microhenrys, [2, -2, 1, 0, -2, 0, 0], 1e-06);
        $m!(nanohenry, [2, -2, 1, 0, -2, 0, 0], 1e-09);
        $m!(nanohenrys, [2, -2, 1, 0, -2, 0, 0], 1e-09);
        $m!(picohenry, [2, -2, 1, 0, -2, 0, 0], 1e-12);
        $m!(picohenrys, [2, -2, 1, 0, -2, 0, 0], 1e-12);
        $m!(femtohenry, [2, -2, 1, 0, -2, 0, 0], 1e-15);
        $m!(femtohenrys, [2, -2, 1, 0, -2, 0, 0], 1e-15);
        $m!(attohenry, [2, -2, 1, 0, -2, 0, 0], 1e-18);
        $m!(attohenrys, [2, -2, 1, 0, -2, 0, 0], 1e-18);
        $m!(lumen, [0, 0, 0, 0, 0, 0, 1], 1.0);
        $m!(lumens, [0, 0, 0, 0, 0, 0, 1], 1.0);
        $m!(exalumen, [0, 0, 0, 0, 0, 0, 1], 1e+18);
        $m!(exalumens, [0, 0, 0, 0, 0, 0, 1], 1e+18);
        $m!(petalumen, [0, 0, 0, 0, 0, 0, 1], 1000000000000000.0);
        $m!(petalumens, [0, 0, 0, 0, 0, 0, 1], 1000000000000000.0);
        $m!(teralumen, [0, 0, 0, 0, 0, 0, 1], 1000000000000.0);
        $m!(teralumens, [0, 0, 0, 0, 0, 0, 1], 1000000000000.0);
        $m!(gigalumen, [0, 0, 0, 0, 0, 0, 1], 1000000000.0);
        $m!(gigalumens, [0, 0, 0, 0, 0, 0, 1], 1000000000.0);
        $m!(megalumen, [0, 0, 0, 0, 0, 0, 1], 1000000.0);
        $m!(megalumens, [0, 0, 0, 0, 0, 0, 1], 1000000.0);
        $m!(kilolumen, [0, 0, 0, 0, 0, 0, 1], 1000.0);
        $m!(kilolumens, [0, 0, 0, 0, 0, 0, 1], 1000.0);
        $m!(hectolumen, [0, 0, 0, 0, 0, 0, 1], 100.0);
        $m!(hectolumens, [0, 0, 0, 0, 0, 0, 1], 100.0);
        $m!(decalumen, [0, 0, 0, 0, 0, 0, 1], 10.0);
        $m!(decalumens, [0, 0, 0, 0, 0, 0, 1], 10.0);
        $m!(decilumen, [0, 0, 0, 0, 0, 0, 1], 0.1);
        $m!(decilumens, [0, 0, 0, 0, 0, 0, 1], 0.1);
        $m!(centilumen, [0, 0, 0, 0, 0, 0, 1], 0.01);
        $m!(centilumens, [0, 0, 0, 0, 0, 0, 1], 0.01);
        $m!(millilumen, [0, 0, 0, 0, 0, 0, 1], 0.001);
        $m!(millilumens, [0, 0, 0, 0, 0, 0, 1], 0.001);
        $m!(microlumen, [0, 0, 0, 0, 0, 0, 1], 1e-06);
        $m!(microlumens, [0, 0, 0, 0, 0, 0, 1], 1e-06);
        $m!(nanolumen, [0, 0, 0, 0, 0, 0, 1], 1e-09);
        $m!(nanolumens, [0, 0, 0, 0, 0, 0, 1], 1e-09);
        $m!(picolumen, [0, 0, 0, 0, 0, 0, 1], 1e-12);
        $m!(picolumens, [0, 0, 0, 0, 0, 0, 1], 1e-12);
        $m!(femtolumen, [0, 0, 0, 0, 0, 0, 1], 1e-15);
        $m!(femtolumens, [0, 0, 0, 0, 0, 0, 1], 1e-15);
        $m!(attolumen, [0, 0, 0, 0, 0, 0, 1], 1e-18);
        $m!(attolumens, [0, 0, 0, 0, 0, 0, 1], 1e-18);
        $m!(lux, [-2, 0, 0, 0, 0, 0, 1], 1.0);
        $m!(exalux, [-2, 0, 0, 0, 0, 0, 1], 1e+18);
        $m!(petalux, [-2, 0, 0, 0, 0, 0, 1], 1000000000000000.0);
        $m!(teralux, [-2, 0, 0, 0, 0, 0, 1], 1000000000000.0);
        $m!(gigalux, [-2, 0, 0, 0, 0, 0, 1], 1000000000.0);
        $m!(megalux, [-2, 0, 0, 0, 0, 0, 1], 1000000.0);
        $m!(kilolux, [-2, 0, 0, 0, 0, 0, 1], 1000.0);
        $m!(hectolux, [-2, 0, 0, 0, 0, 0, 1], 100.0);
        $m!(decalux, [-2, 0, 0, 0, 0, 0, 1], 10.0);
        $m!(decilux, [-2, 0, 0, 0, 0, 0, 1], 0.1);
        $m!(centilux, [-2, 0, 0, 0, 0, 0, 1], 0.01);
        $m!(millilux, [-2, 0, 0, 0, 0, 0, 1], 0.001);
        $m!(microlux, [-2, 0, 0, 0, 0, 0, 1], 1e-06);
        $m!(nanolux, [-2, 0, 0, 0, 0, 0, 1], 1e-09);
        $m!(picolux, [-2, 0, 0, 0, 0, 0, 1], 1e-12);
        $m!(femtolux, [-2, 0, 0, 0, 0, 0, 1], 1e-15);
        $m!(attolux, [-2, 0, 0, 0, 0, 0, 1], 1e-18);
        $m!(becquerel, [0, -1, 0, 0, 0, 0, 0], 1.0);
        $m!(becquerels, [0, -1, 0, 0, 0, 0, 0], 1.0);
        $m!(exabecquerel, [0, -1, 0, 0, 0, 0, 0], 1e+18);
        $m!(exabecquerels, [0, -1, 0, 0, 0, 0, 0], 1e+18);
        $m!(petabecquerel, [0, -1, 0, 0, 0, 0, 0], 1000000000000000.0);
        $m!(petabecquerels, [0, -1, 0, 0, 0, 0, 0], 1000000000000000.0);
        $m!(terabecquerel, [0, -1, 0, 0, 0, 0, 0], 1000000000000.0);
        $m!(terabecquerels, [0, -1, 0, 0, 0, 0, 0], 1000000000000.0);
        $m!(gigabecquerel, [0, -1, 0, 0, 0, 0, 0], 1000000000.0);
        $m!(gigabecquerels, [0, -1, 0, 0, 0, 0, 0], 1000000000.0);
        $m!(megabecquerel, [0, -1, 0, 0, 0, 0, 0], 1000000.0);
        $m!(megabecquerels, [0, -1, 0, 0, 0, 0, 0], 1000000.0);
        $m!(kilobecquerel, [0, -1, 0, 0, 0, 0, 0], 1000.0);
        $m!(kilobecquerels, [0, -1, 0, 0, 0, 0, 0], 1000.0);
        $m!(hectobecquerel, [0, -1, 0, 0, 0, 0, 0], 100.0);
        $m!(hectobecquerels, [0, -1, 0, 0, 0, 0, 0], 100.0);
        $m!(decabecquerel, [0, -1, 0, 0, 0, 0, 0], 10.0);
        $m!(decabecquerels, [0, -1, 0, 0, 0, 0, 0], 10.0);
        $m!(decibecquerel, [0, -1, 0, 0, 0, 0, 0], 0.1);
        $m!(decibecquerels, [0, -1, 0, 0, 0, 0, 0], 0.1);
        $m!(centibecquerel, [0, -1, 0, 0, 0, 0, 0], 0.01);
        $m!(centibecquerels, [0, -1, 0, 0, 0, 0, 0], 0.01);
        $m!(millibecquerel, [0, -1, 0, 0, 0, 0, 0], 0.001);
        $m!(millibecquerels, [0, -1, 0, 0, 0, 0, 0], 0.001);
        $m!(microbecquerel, [0, -1, 0, 0, 0, 0, 0], 1e-06);
        $m!(microbecquerels, [0, -1, 0, 0, 0, 0, 0], 1e-06);
        $m!(nanobecquerel, [0, -1, 0, 0, 0, 0, 0], 1e-09);
        $m!(nanobecquerels, [0, -1, 0, 0, 0, 0, 0], 1e-09);
        $m!(picobecquerel, [0, -1, 0, 0, 0, 0, 0], 1e-12);
        $m!(picobecquerels, [0, -1, 0, 0, 0, 0, 0], 1e-12);
        $m!(femtobecquerel, [0, -1, 0, 0, 0, 0, 0], 1e-15);
        $m!(femtobecquerels, [0, -1, 0, 0, 0, 0, 0], 1e-15);
        $m!(attobecquerel, [0, -1, 0, 0, 0, 0, 0], 1e-18);
        $m!(attobecquerels, [0, -1, 0, 0, 0, 0, 0], 1e-18);
        $m!(gray, [2, -2, 0, 0, 0, 0, 0], 1.0);
        $m!(grays, [2, -2, 0, 0, 0, 0, 0], 1.0);
        $m!(exagray, [2, -2, 0, 0, 0, 0, 0], 1e+18);
        $m!(exagrays, [2, -2, 0, 0, 0, 0, 0], 1e+18);
        $m!(petagray, [2, -2, 0, 0, 0, 0, 0], 1000000000000000.0);
        $m!(petagrays, [2, -2, 0, 0, 0, 0, 0], 1000000000000000.0);
        $m!(teragray, [2, -2, 0, 0, 0, 0, 0], 1000000000000.0);
        $m!(teragrays, [2, -2, 0, 0, 0, 0, 0], 1000000000000.0);
        $m!(gigagray, [2, -2, 0, 0, 0, 0, 0], 1000000000.0);
        $m!(gigagrays, [2, -2, 0, 0, 0, 0, 0], 1000000000.0);
        $m!(megagray, [2, -2, 0, 0, 0, 0, 0], 1000000.0);
        $m!(megagrays, [2, -2, 0, 0, 0, 0, 0], 1000000.0);
        $m!(kilogray, [2, -2, 0, 0, 0, 0, 0], 1000.0);
        $m!(kilograys, [2, -2, 0, 0, 0, 0, 0], 1000.0);
        $m!(hectogray, [2, -2, 0, 0, 0, 0, 0], 100.0);
        $m!(hectograys, [2, -2, 0, 0, 0, 0, 0], 100.0);
        $m!(decagray, [2, -2, 0, 0, 0, 0, 0], 10.0);
        $m!(decagrays, [2, -2, 0, 0, 0, 0, 0], 10.0);
        $m!(decigray, [2, -2, 0, 0, 0, 0, 0], 0.1);
        $m!(decigrays, [2, -2, 0, 0, 0, 0, 0], 0.1);
        $m!(centigray, [2, -2, 0, 0, 0, 0, 0], 0.01);
        $m!(centigrays, [2, -2, 0, 0, 0, 0, 0], 0.01);
        $m!(milligray, [2, -2, 0, 0, 0, 0, 0], 0.001);
        $m!(milligrays, [2, -2, 0, 0, 0, 0, 0], 0.001);
        $m!(microgray, [2, -2, 0, 0, 0, 0, 0], 1e-06);
        $m!(micrograys, [2, -2, 0, 0, 0, 0, 0], 1e-06);
        $m!(nanogray, [2, -2, 0, 0, 0, 0, 0], 1e-09);
        $m!(nanograys, [2, -2, 0, 0, 0, 0, 0], 1e-09);
        $m!(picogray, [2, -2, 0, 0, 0, 0, 0], 1e-12);
        $m!(picograys, [2, -2, 0, 0, 0, 0, 0], 1e-12);
        $m!(femtogray, [2, -2, 0, 0, 0, 0, 0], 1e-15);
        $m!(femtograys, [2, -2, 0, 0, 0, 0, 0], 1e-15);
        $m!(attogray, [2, -2, 0, 0, 0, 0, 0], 1e-18);
        $m!(attograys, [2, -2, 0, 0, 0, 0, 0], 1e-18);
        $m!(sievert, [2, -2, 0, 0, 0, 0, 0], 1.0);
        $m!(sieverts, [2, -2, 0, 0, 0, 0, 0], 1.0);
        $m!(exasievert, [2, -2, 0, 0, 0, 0, 0], 1e+18);
        $m!(exasieverts, [2, -2, 0, 0, 0, 0, 0], 1e+18);
        $m!(petasievert, [2, -2, 0, 0, 0, 0, 0], 1000000000000000.0);
        $m!(petasieverts, [2, -2, 0, 0, 0, 0, 0], 1000000000000000.0);
        $m!(terasievert, [2, -2, 0, 0, 0, 0, 0], 1000000000000.0);
        $m!(terasieverts, [2, -2, 0, 0, 0, 0, 0], 1000000000000.0);
        $m!(gigasievert, [2, -2, 0, 0, 0, 0, 0], 1000000000.0);
        $m!(gigasieverts, [2, -2, 0, 0, 0, 0, 0], 1000000000.0);
        $m!(megasievert, [2, -2, 0, 0, 0, 0, 0], 1000000.0);
        $m!(megasieverts, [2, -2, 0, 0, 0, 0, 0], 1000000.0);
        $m!(kilosievert, [2, -2, 0, 0, 0, 0, 0], 1000.0);
        $m!(kilosieverts, [2, -2, 0, 0, 0, 0, 0], 1000.0);
        $m!(hectosievert, [2, -2, 0, 0, 0, 0, 0], 100.0);
        $m!(hectosieverts, [2, -2, 0, 0, 0, 0, 0], 100.0);
        $m!(decasievert, [2, -2, 0, 0, 0, 0, 0], 10.0);
        $m!(decasieverts, [2, -2, 0, 0, 0, 0, 0], 10.0);
        $m!(decisievert, [2, -2, 0, 0, 0, 0, 0], 0.1);
        $m!(decisieverts, [2, -2, 0, 0, 0, 0, 0], 0.1);
        $m!(centisievert, [2, -2, 0, 0, 0, 0, 0], 0.01);
        $m!(centisieverts, [2, -2, 0, 0, 0, 0, 0], 0.01);
        $m!(millisievert, [2, -2, 0, 0, 0, 0, 0], 0.001);
        $m!(millisieverts, [2, -2, 0, 0, 0, 0, 0], 0.001);
        $m!(microsievert, [2, -2, 0, 0, 0, 0, 0], 1e-06);
        $m!(microsieverts, [2, -2, 0, 0, 0, 0, 0], 1e-06);
        $m!(nanosievert, [2, -2, 0, 0, 0, 0, 0], 1e-09);
        $m!(nanosieverts, [2, -2, 0, 0, 0, 0, 0], 1e-09);
        $m!(picosievert, [2, -2, 0, 0, 0, 0, 0], 1e-12);
        $m!(picosieverts, [2, -2, 0, 0, 0, 0, 0], 1e-12);
        $m!(femtosievert, [2, -2, 0, 0, 0, 0, 0], 1e-15);
        $m!(femtosieverts, [2, -2, 0, 0, 0, 0, 0], 1e-15);
        $m!(attosievert, [2, -2, 0, 0, 0, 0, 0], 1e-18);
        $m!(attosieverts, [2, -2, 0, 0, 0, 0, 0], 1e-18);
        $m!(katal, [0, -1, 0, 0, 0, 1, 0], 1.0);
        $m!(katals, [0, -1, 0, 0, 0, 1, 0], 1.0);
        $m!(exakatal, [0, -1, 0, 0, 0, 1, 0], 1e+18);
        $m!(exakatals, [0, -1, 0, 0, 0, 1, 0], 1e+18);
        $m!(petakatal, [0, -1, 0, 0, 0, 1, 0], 1000000000000000.0);
        $m!(petakatals, [0, -1, 0, 0, 0, 1, 0], 1000000000000000.0);
        $m!(terakatal, [0, -1, 0, 0, 0, 1, 0], 1000000000000.0);
        $m!(terakatals, [0, -1, 0, 0, 0, 1, 0], 1000000000000.0);
        $m!(gigakatal, [0, -1, 0, 0, 0, 1, 0], 1000000000.0);
        $m!(gigakatals, [0, -1, 0, 0, 0, 1, 0], 1000000000.0);
        $m!(megakatal, [0, -1, 0, 0, 0, 1, 0], 1000000.0);
        $m!(megakatals, [0, -1, 0, 0, 0, 1, 0], 1000000.0);
        $m!(kilokatal, [0, -1, 0, 0, 0, 1, 0], 1000.0);
        $m!(kilokatals, [0, -1, 0, 0, 0, 1, 0], 1000.0);
        $m!(hectokatal, [0, -1, 0, 0, 0, 1, 0], 100.0);
        $m!(hectokatals, [0, -1, 0, 0, 0, 1, 0], 100.0);
        $m!(decakatal, [0, -1, 0, 0, 0, 1, 0], 10.0);
        $m!(decakatals, [0, -1, 0, 0, 0, 1, 0], 10.0);
        $m!(decikatal, [0, -1, 0, 0, 0, 1, 0], 0.1);
        $m!(decikatals, [0, -1, 0, 0, 0, 1, 0], 0.1);
        $m!(centikatal, [0, -1, 0, 0, 0, 1, 0], 0.01);
        $m!(centikatals, [0, -1, 0, 0, 0, 1, 0], 0.01);
        $m!(millikatal, [0, -1, 0, 0, 0, 1, 0], 0.001);
        $m!(millikatals, [0, -1, 0, 0, 0, 1, 0], 0.001);
        $m!(microkatal, [0, -1, 0, 0, 0, 1, 0], 1e-06);
        $m!(microkatals, [0, -1, 0, 0, 0, 1, 0], 1e-06);
        $m!(nanokatal, [0, -1, 0, 0, 0, 1, 0], 1e-09);
        $m!(nanokatals, [0, -1, 0, 0, 0, 1, 0], 1e-09);
        $m!(picokatal, [0, -1, 0, 0, 0, 1, 0], 1e-12);
        $m!(picokatals, [0, -1, 0, 0, 0, 1, 0], 1e-12);
        $m!(femtokatal, [0, -1, 0, 0, 0, 1, 0], 1e-15);
        $m!(femtokatals, [0, -1, 0, 0, 0, 1, 0], 1e-15);
        $m!(attokatal, [0, -1, 0, 0, 0, 1, 0], 1e-18);
        $m!(attokatals, [0, -1, 0, 0, 0, 1, 0], 1e-18);
        $m!(minute, [0, 1, 0, 0, 0, 0, 0], 60.0);
        $m!(minutes, [0, 1, 0, 0, 0, 0, 0], 60.0);
        $m!(hour, [0, 1, 0, 0, 0, 0, 0], 3600.0);
        $m!(hours, [0, 1, 0, 0, 0, 0, 0], 3600.0);
        $m!(day, [0, 1, 0, 0, 0, 0, 0], 86400.0);
        $m!(days, [0, 1, 0, 0, 0, 0, 0], 86400.0);
        $m!(astronomicalunit, [1, 0, 0, 0, 0, 0, 0], 149597870700.0);
        $m!(astronomicalunits, [1, 0, 0, 0, 0, 0, 0], 149597870700.0);
        $m!(degree, [0, 0, 0, 0, 0, 0, 0], 0.017453292519943295);
        $m!(degrees, [0, 0, 0, 0, 0, 0, 0], 0.017453292519943295);
        $m!(arcminute, [0, 0, 0, 0, 0, 0, 0], 0.0002908882086657216);
        $m!(arcminutes, [0, 0, 0, 0, 0, 0, 0], 0.0002908882086657216);
        $m!(arcsecond, [0, 0, 0, 0, 0, 0, 0], 4.84813681109536e-06);
        $m!(arcseconds, [0, 0, 0, 0, 0, 0, 0], 4.84813681109536e-06);
        $m!(are, [2, 0, 0, 0, 0, 0, 0], 100.0);
        $m!(ares, [2, 0, 0, 0, 0, 0, 0], 100.0);
        $m!(hectare, [2, 0, 0, 0, 0, 0, 0], 10000.0);
        $m!(hectares, [2, 0, 0, 0, 0, 0, 0], 10000.0);
        $m!(litre, [3, 0, 0, 0, 0, 0, 0], 0.001);
        $m!(litres, [3, 0, 0, 0, 0, 0, 0], 0.001);
        $m!(exalitre, [3, 0, 0, 0, 0, 0, 0], 1000000000000000.0);
        $m!(exalitres, [3, 0, 0, 0, 0, 0, 0], 1000000000000000.0);
        $m!(petalitre, [3, 0, 0, 0, 0, 0, 0], 1000000000000.0);
        $m!(petalitres, [3, 0, 0, 0, 0, 0, 0], 1000000000000.0);
        $m!(teralitre, [3, 0, 0, 0, 0, 0, 0], 1000000000.0);
        $m!(teralitres, [3, 0, 0, 0, 0, 0, 0], 1000000000.0);
        $m!(gigalitre, [3, 0, 0, 0, 0, 0, 0], 1000000.0);
        $m!(gigalitres, [3, 0, 0, 0, 0, 0, 0], 1000000.0);
        $m!(megalitre, [3, 0, 0, 0, 0, 0, 0], 1000.0);
        $m!(megalitres, [3, 0, 0, 0, 0, 0, 0], 1000.0);
        $m!(kilolitre, [3, 0, 0, 0, 0, 0, 0], 1.0);
        $m!(kilolitres, [3, 0, 0, 0, 0, 0, 0], 1.0);
        $m!(hectolitre, [3, 0, 0, 0, 0, 0, 0], 0.1);
        $m!(hectolitres, [3, 0, 0, 0, 0, 0, 0], 0.1);
        $m!(decalitre, [3, 0, 0, 0, 0, 0, 0], 0.01);
        $m!(decalitres, [3, 0, 0, 0, 0, 0, 0], 0.01);
        $m!(decilitre, [3, 0, 0, 0, 0, 0, 0], 0.0001);
        $m!(decilitres, [3, 0, 0, 0, 0, 0, 0], 0.0001);
        $m!(centilitre, [3, 0, 0, 0, 0, 0, 0], 1e-05);
        $m!(centilitres, [3, 0, 0, 0, 0, 0, 0], 1e-05);
        $m!(millilitre, [3, 0, 0, 0, 0, 0, 0], 1e-06);
        $m!(millilitres, [3, 0, 0, 0, 0, 0, 0], 1e-06);
        $m!(microlitre, [3, 0, 0, 0, 0, 0, 0], 1e-09);
        $m!(microlitres, [3, 0, 0, 0, 0, 0, 0], 1e-09);
        $m!(nanolitre, [3, 0, 0, 0, 0, 0, 0], 1e-12);
        $m!(nanolitres, [3, 0, 0, 0, 0, 0, 0], 1e-12);
        $m!(picolitre, [3, 0, 0, 0, 0, 0, 0], 1e-15);
        $m!(picolitres, [3, 0, 0, 0, 0, 0, 0], 1e-15);
        $m!(femtolitre, [3, 0, 0, 0, 0, 0, 0], 1e-18);
        $m!(femtolitres, [3, 0, 0, 0, 0, 0, 0], 1e-18);
        $m!(attolitre, [3, 0, 0, 0, 0, 0, 0], 1e-21);
        $m!(attolitres, [3, 0, 0, 0, 0, 0, 0], 1e-21);
        $m!(tonne, [0, 0, 1, 0, 0, 0, 0], 1000.0);
        $m!(tonnes, [0, 0, 1, 0, 0, 0, 0], 1000.0);
        $m!(exatonne, [0, 0, 1, 0, 0, 0, 0], 1e+21);
        $m!(exatonnes, [0, 0, 1, 0, 0, 0, 0], 1e+21);
        $m!(petatonne, [0, 0, 1, 0, 0, 0, 0], 1e+18);
        $m!(petatonnes, [0, 0, 1, 0, 0, 0, 0], 1e+18);
        $m!(teratonne, [0, 0, 1, 0, 0, 0, 0], 1000000000000000.0);
        $m!(teratonnes, [0, 0, 1, 0, 0, 0, 0], 1000000000000000.0);
        $m!(gigatonne, [0, 0, 1, 0, 0, 0, 0], 1000000000000.0);
        $m!(gigatonnes, [0, 0, 1, 0, 0, 0, 0], 1000000000000.0);
        $m!(megatonne, [0, 0, 1, 0, 0, 0, 0], 1000000000.0);
        $m!(megatonnes, [0, 0, 1, 0, 0, 0, 0], 1000000000.0);
        $m!(kilotonne, [0, 0, 1, 0, 0, 0, 0], 1000000.0);
        $m!(kilotonnes, [0, 0, 1, 0, 0, 0, 0], 1000000.0);
        $m!(hectotonne, [0, 0, 1, 0, 0, 0, 0], 100000.0);
        $m!(hectotonnes, [0, 0, 1, 0, 0, 0, 0], 100000.0);
        $m!(decatonne, [0, 0, 1, 0, 0, 0, 0], 10000.0);
        $m!(decatonnes, [0, 0, 1, 0, 0, 0, 0], 10000.0);
        $m!(decitonne, [0, 0, 1, 0, 0, 0, 0], 100.0);
        $m!(decitonnes, [0, 0, 1, 0, 0, 0, 0], 100.0);
        $m!(centitonne, [0, 0, 1, 0, 0, 0, 0], 10.0);
        $m!(centitonnes, [0, 0, 1, 0, 0, 0, 0], 10.0);
        $m!(millitonne, [0, 0, 1, 0, 0, 0, 0], 1.0);
        $m!(millitonnes, [0, 0, 1, 0, 0, 0, 0], 1.0);
        $m!(microtonne, [0, 0, 1, 0, 0, 0, 0], 0.001);
        $m!(microtonnes, [0, 0, 1, 0, 0, 0, 0], 0.001);
        $m!(nanotonne, [0, 0, 1, 0, 0, 0, 0], 1e-06);
        $m!(nanotonnes, [0, 0, 1, 0, 0, 0, 0], 1e-06);
        $m!(picotonne, [0, 0, 1, 0, 0, 0, 0], 1e-09);
        $m!(picotonnes, [0, 0, 1, 0, 0, 0, 0], 1e-09);
        $m!(femtotonne, [0, 0, 1, 0, 0, 0, 0], 1e-12);
        $m!(femtotonnes, [0, 0, 1, 0, 0, 0, 0], 1e-12);
        $m!(attotonne, [0, 0, 1, 0, 0, 0, 0], 1e-15);
        $m!(attotonnes, [0, 0, 1, 0, 0, 0, 0], 1e-15);
        $m!(dalton, [0, 0, 1, 0, 0, 0, 0], 1.6605390666e-27);
        $m!(daltons, [0, 0, 1, 0, 0, 0, 0], 1.6605390666e-27);
        $m!(electronvolt, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-19);
        $m!(electronvolts, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-19);
        $m!(exaelectronvolt, [2, -2, 1, 0, 0, 0, 0], 0.1602176634);
        $m!(exaelectronvolts, [2, -2, 1, 0, 0, 0, 0], 0.1602176634);
        $m!(petaelectronvolt, [2, -2, 1, 0, 0, 0, 0], 0.0001602176634);
        $m!(petaelectronvolts, [2, -2, 1, 0, 0, 0, 0], 0.0001602176634);
        $m!(teraelectronvolt, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-07);
        $m!(teraelectronvolts, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-07);
        $m!(gigaelectronvolt, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-10);
        $m!(gigaelectronvolts, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-10);
        $m!(megaelectronvolt, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-13);
        $m!(megaelectronvolts, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-13);
        $m!(kiloelectronvolt, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-16);
        $m!(kiloelectronvolts, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-16);
        $m!(hectoelectronvolt, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-17);
        $m!(hectoelectronvolts, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-17);
        $m!(decaelectronvolt, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-18);
        $m!(decaelectronvolts, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-18);
        $m!(decielectronvolt, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-20);
        $m!(decielectronvolts, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-20);
        $m!(centielectronvolt, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-21);
        $m!(centielectronvolts, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-21);
        $m!(millielectronvolt, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-22);
        $m!(millielectronvolts, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-22);
        $m!(microelectronvolt, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-25);
        $m!(microelectronvolts, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-25);
        $m!(nanoelectronvolt, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-28);
        $m!(nanoelectronvolts, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-28);
        $m!(picoelectronvolt, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-31);
        $m!(picoelectronvolts, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-31);
        $m!(femtoelectronvolt, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-34);
        $m!(femtoelectronvolts, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-34);
        $m!(attoelectronvolt, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-37);
        $m!(attoelectronvolts, [2, -2, 1, 0, 0, 0, 0], 1.602176634e-37);
        $m!(joule_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 1.0);
        $m!(joules_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 1.0);
        $m!(exajoule_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 1e+18);
        $m!(exajoules_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 1e+18);
        $m!(petajoule_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 1000000000000000.0);
        $m!(petajoules_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 1000000000000000.0);
        $m!(terajoule_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 1000000000000.0);
        $m!(terajoules_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 1000000000000.0);
        $m!(gigajoule_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 1000000000.0);
        $m!(gigajoules_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 1000000000.0);
        $m!(megajoule_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 1000000.0);
        $m!(megajoules_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 1000000.0);
        $m!(kilojoule_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 1000.0);
        $m!(kilojoules_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 1000.0);
        $m!(hectojoule_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 100.0);
        $m!(hectojoules_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 100.0);
        $m!(decajoule_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 10.0);
        $m!(decajoules_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 10.0);
        $m!(decijoule_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 0.1);
        $m!(decijoules_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 0.1);
        $m!(centijoule_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 0.01);
        $m!(centijoules_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 0.01);
        $m!(millijoule_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 0.001);
        $m!(millijoules_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 0.001);
        $m!(microjoule_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 1e-06);
        $m!(microjoules_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 1e-06);
        $m!(nanojoule_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 1e-09);
        $m!(nanojoules_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 1e-09);
        $m!(picojoule_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 1e-12);
        $m!(picojoules_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 1e-12);
        $m!(femtojoule_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 1e-15);
        $m!(femtojoules_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 1e-15);
        $m!(attojoule_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 1e-18);
        $m!(attojoules_per_kilogram, [2, -2, 0, 0, 0, 0, 0], 1e-18);
        $m!(joule_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 1.0);
        $m!(joules_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 1.0);
        $m!(exajoule_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 1e+18);
        $m!(exajoules_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 1e+18);
        $m!(petajoule_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 1000000000000000.0);
        $m!(petajoules_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 1000000000000000.0);
        $m!(terajoule_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 1000000000000.0);
        $m!(terajoules_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 1000000000000.0);
        $m!(gigajoule_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 1000000000.0);
        $m!(gigajoules_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 1000000000.0);
        $m!(megajoule_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 1000000.0);
        $m!(megajoules_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 1000000.0);
        $m!(kilojoule_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 1000.0);
        $m!(kilojoules_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 1000.0);
        $m!(hectojoule_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 100.0);
        $m!(hectojoules_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 100.0);
        $m!(decajoule_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 10.0);
        $m!(decajoules_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 10.0);
        $m!(decijoule_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 0.1);
        $m!(decijoules_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 0.1);
        $m!(centijoule_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 0.01);
        $m!(centijoules_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 0.01);
        $m!(millijoule_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 0.001);
        $m!(millijoules_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 0.001);
        $m!(microjoule_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 1e-06);
        $m!(microjoules_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 1e-06);
        $m!(nanojoule_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 1e-09);
        $m!(nanojoules_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 1e-09);
        $m!(picojoule_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 1e-12);
        $m!(picojoules_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 1e-12);
        $m!(femtojoule_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 1e-15);
        $m!(femtojoules_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 1e-15);
        $m!(attojoule_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 1e-18);
        $m!(attojoules_per_kilogram_kelvin, [2, -2, 0, -1, 0, 0, 0], 1e-18);
        $m!(meter_per_second, [1, -1, 0, 0, 0, 0, 0], 1.0);
        $m!(meters_per_second, [1, -1, 0, 0, 0, 0, 0], 1.0);
        $m!(exameter_per_second, [1, -1, 0, 0, 0, 0, 0], 1e+18);
        $m!(exameters_per_second, [1, -1, 0, 0, 0, 0, 0], 1e+18);
        $m!(petameter_per_second, [1, -1, 0, 0, 0, 0, 0], 1000000000000000.0);
        $m!(petameters_per_second, [1, -1, 0, 0, 0, 0, 0], 1000000000000000.0);
        $m!(terameter_per_second, [1, -1, 0, 0, 0, 0, 0], 1000000000000.0);
        $m!(terameters_per_second, [1, -1, 0, 0, 0, 0, 0], 1000000000000.0);
        $m!(gigameter_per_second, [1, -1, 0, 0, 0, 0, 0], 1000000000.0);
        $m!(gigameters_per_second, [1, -1, 0, 0, 0, 0, 0], 1000000000.0);
        $m!(megameter_per_second, [1, -1, 0, 0, 0, 0, 0], 1000000.0);
        $m!(megameters_per_second, [1, -1, 0, 0, 0, 0, 0], 1000000.0);
        $m!(kilometer_per_second, [1, -1, 0, 0, 0, 0, 0], 1000.0);
        $m!(kilometers_per_second, [1, -1, 0, 0, 0, 0, 0], 1000.0);
        $m!(hectometer_per_second, [1, -1, 0, 0, 0, 0, 0], 100.0);
        $m!(hectometers_per_second, [1, -1, 0, 0, 0, 0, 0], 100.0);
        $m!(decameter_per_second, [1, -1, 0, 0, 0, 0, 0], 10.0);
        $m!(decameters_per_second, [1, -1, 0, 0, 0, 0, 0], 10.0);
        $m!(decimeter_per_second, [1, -1, 0, 0, 0, 0, 0], 0.1);
        $m!(decimeters_per_second, [1, -1, 0, 0, 0, 0, 0], 0.1);
        $m!(centimeter_per_second, [1, -1, 0, 0, 0, 0, 0], 0.01);
        $m!(centimeters_per_second, [1, -1, 0, 0, 0, 0, 0], 0.01);
        $m!(millimeter_per_second, [1, -1, 0, 0, 0, 0, 0], 0.001);
        $m!(millimeters_per_second, [1, -1, 0, 0, 0, 0, 0], 0.001);
        $m!(micrometer_per_second, [1, -1, 0, 0, 0, 0, 0], 1e-06);
        $m!(micrometers_per_second, [1, -1, 0, 0, 0, 0, 0], 1e-06);
        $m!(nanometer_per_second, [1, -1, 0, 0, 0, 0, 0], 1e-09);
        $m!(nanometers_per_second, [1, -1, 0, 0, 0, 0, 0], 1e-09);
        $m!(picometer_per_second, [1, -1, 0, 0, 0, 0, 0], 1e-12);
        $m!(picometers_per_second, [1, -1, 0, 0, 0, 0, 0], 1e-12);
        $m!(femtometer_per_second, [1, -1, 0, 0, 0, 0, 0], 1e-15);
        $m!(femtometers_per_second, [1, -1, 0, 0, 0, 0, 0], 1e-15);
        $m!(attometer_per_second, [1, -1, 0, 0, 0, 0, 0], 1e-18);
        $m!(attometers_per_second, [1, -1, 0, 0, 0, 0, 0], 1e-18);
        $m!(square_meter, [2, 0, 0, 0, 0, 0, 0], 1.0);
        $m!(square_metre, [2, 0, 0, 0, 0, 0, 0], 1.0);
        $m!(square_meters, [2, 0, 0, 0, 0, 0, 0], 1.0);
        $m!(square_metres, [2, 0, 0, 0, 0, 0, 0], 1.0);
        $m!(cubic_meter, [3, 0, 0, 0, 0, 0, 0], 1.0);
        $m!(cubic_metre, [3, 0, 0, 0, 0, 0, 0], 1.0);
        $m!(cubic_meters, [3, 0, 0, 0, 0, 0, 0], 1.0);
        $m!(cubic_metres, [3, 0, 0, 0, 0, 0, 0], 1.0);
    };
}
