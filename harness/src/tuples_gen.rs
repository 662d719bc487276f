// written by bin/gen_tuples.py
use super::tuples::{t, Kind};
pub const TREE_CASES: usize = 370;
pub fn tree_cases<V: Kind>(k: usize, v: &V) {
    match k {
        0 => v.tree(|| t(), &[0]),
        1 => v.tree(|| (t(),), &[0]),
        2 => v.tree(|| (t(),t()), &[0, 1]),
        3 => v.tree(|| (t(),(t(),)), &[0, 1]),
        4 => v.tree(|| (t(),t(),t()), &[0, 1, 1]),
        5 => v.tree(|| (t(),(t(),),t()), &[0, 1, 1]),
        6 => v.tree(|| (t(),t(),(t(),)), &[0, 1, 1]),
        7 => v.tree(|| (t(),(t(),),(t(),)), &[0, 1, 1]),
        8 => v.tree(|| (t(),(t(),t())), &[0, 1, 2]),
        9 => v.tree(|| (t(),(t(),(t(),))), &[0, 1, 2]),
        10 => v.tree(|| (t(),t(),t(),t()), &[0, 1, 1, 1]),
        11 => v.tree(|| (t(),(t(),),t(),t()), &[0, 1, 1, 1]),
        12 => v.tree(|| (t(),t(),(t(),),t()), &[0, 1, 1, 1]),
        13 => v.tree(|| (t(),(t(),),(t(),),t()), &[0, 1, 1, 1]),
        14 => v.tree(|| (t(),t(),t(),(t(),)), &[0, 1, 1, 1]),
        15 => v.tree(|| (t(),(t(),),t(),(t(),)), &[0, 1, 1, 1]),
        16 => v.tree(|| (t(),t(),(t(),),(t(),)), &[0, 1, 1, 1]),
        17 => v.tree(|| (t(),(t(),),(t(),),(t(),)), &[0, 1, 1, 1]),
        18 => v.tree(|| (t(),t(),(t(),t())), &[0, 1, 1, 2]),
        19 => v.tree(|| (t(),(t(),),(t(),t())), &[0, 1, 1, 2]),
        20 => v.tree(|| (t(),t(),(t(),(t(),))), &[0, 1, 1, 2]),
        21 => v.tree(|| (t(),(t(),),(t(),(t(),))), &[0, 1, 1, 2]),
        22 => v.tree(|| (t(),(t(),t()),t()), &[0, 1, 2, 1]),
        23 => v.tree(|| (t(),(t(),(t(),)),t()), &[0, 1, 2, 1]),
        24 => v.tree(|| (t(),(t(),t()),(t(),)), &[0, 1, 2, 1]),
        25 => v.tree(|| (t(),(t(),(t(),)),(t(),)), &[0, 1, 2, 1]),
        26 => v.tree(|| (t(),(t(),t(),t())), &[0, 1, 2, 2]),
        27 => v.tree(|| (t(),(t(),(t(),),t())), &[0, 1, 2, 2]),
        28 => v.tree(|| (t(),(t(),t(),(t(),))), &[0, 1, 2, 2]),
        29 => v.tree(|| (t(),(t(),(t(),),(t(),))), &[0, 1, 2, 2]),
        30 => v.tree(|| (t(),(t(),(t(),t()))), &[0, 1, 2, 3]),
        31 => v.tree(|| (t(),(t(),(t(),(t(),)))), &[0, 1, 2, 3]),
        32 => v.tree(|| (t(),t(),t(),t(),t()), &[0, 1, 1, 1, 1]),
        33 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1]),
        34 => v.tree(|| (t(),(t(),),t(),(t(),),t()), &[0, 1, 1, 1, 1]),
        35 => v.tree(|| (t(),t(),t(),(t(),t())), &[0, 1, 1, 1, 2]),
        36 => v.tree(|| (t(),(t(),),t(),(t(),t())), &[0, 1, 1, 1, 2]),
        37 => v.tree(|| (t(),t(),(t(),),(t(),t())), &[0, 1, 1, 1, 2]),
        38 => v.tree(|| (t(),(t(),),(t(),),(t(),t())), &[0, 1, 1, 1, 2]),
        39 => v.tree(|| (t(),t(),t(),(t(),(t(),))), &[0, 1, 1, 1, 2]),
        40 => v.tree(|| (t(),(t(),),t(),(t(),(t(),))), &[0, 1, 1, 1, 2]),
        41 => v.tree(|| (t(),t(),(t(),),(t(),(t(),))), &[0, 1, 1, 1, 2]),
        42 => v.tree(|| (t(),(t(),),(t(),),(t(),(t(),))), &[0, 1, 1, 1, 2]),
        43 => v.tree(|| (t(),t(),(t(),t()),t()), &[0, 1, 1, 2, 1]),
        44 => v.tree(|| (t(),(t(),),(t(),t()),t()), &[0, 1, 1, 2, 1]),
        45 => v.tree(|| (t(),t(),(t(),(t(),)),t()), &[0, 1, 1, 2, 1]),
        46 => v.tree(|| (t(),(t(),),(t(),(t(),)),t()), &[0, 1, 1, 2, 1]),
        47 => v.tree(|| (t(),t(),(t(),t()),(t(),)), &[0, 1, 1, 2, 1]),
        48 => v.tree(|| (t(),(t(),),(t(),t()),(t(),)), &[0, 1, 1, 2, 1]),
        49 => v.tree(|| (t(),t(),(t(),(t(),)),(t(),)), &[0, 1, 1, 2, 1]),
        50 => v.tree(|| (t(),(t(),),(t(),(t(),)),(t(),)), &[0, 1, 1, 2, 1]),
        51 => v.tree(|| (t(),t(),(t(),t(),t())), &[0, 1, 1, 2, 2]),
        52 => v.tree(|| (t(),(t(),),(t(),t(),t())), &[0, 1, 1, 2, 2]),
        53 => v.tree(|| (t(),t(),(t(),(t(),),t())), &[0, 1, 1, 2, 2]),
        54 => v.tree(|| (t(),(t(),),(t(),(t(),),t())), &[0, 1, 1, 2, 2]),
        55 => v.tree(|| (t(),t(),(t(),t(),(t(),))), &[0, 1, 1, 2, 2]),
        56 => v.tree(|| (t(),(t(),),(t(),t(),(t(),))), &[0, 1, 1, 2, 2]),
        57 => v.tree(|| (t(),t(),(t(),(t(),),(t(),))), &[0, 1, 1, 2, 2]),
        58 => v.tree(|| (t(),(t(),),(t(),(t(),),(t(),))), &[0, 1, 1, 2, 2]),
        59 => v.tree(|| (t(),t(),(t(),(t(),t()))), &[0, 1, 1, 2, 3]),
        60 => v.tree(|| (t(),(t(),),(t(),(t(),t()))), &[0, 1, 1, 2, 3]),
        61 => v.tree(|| (t(),t(),(t(),(t(),(t(),)))), &[0, 1, 1, 2, 3]),
        62 => v.tree(|| (t(),(t(),),(t(),(t(),(t(),)))), &[0, 1, 1, 2, 3]),
        63 => v.tree(|| (t(),(t(),t()),t(),t()), &[0, 1, 2, 1, 1]),
        64 => v.tree(|| (t(),(t(),(t(),)),t(),t()), &[0, 1, 2, 1, 1]),
        65 => v.tree(|| (t(),(t(),t()),(t(),),t()), &[0, 1, 2, 1, 1]),
        66 => v.tree(|| (t(),(t(),(t(),)),(t(),),t()), &[0, 1, 2, 1, 1]),
        67 => v.tree(|| (t(),(t(),t()),t(),(t(),)), &[0, 1, 2, 1, 1]),
        68 => v.tree(|| (t(),(t(),(t(),)),t(),(t(),)), &[0, 1, 2, 1, 1]),
        69 => v.tree(|| (t(),(t(),t()),(t(),),(t(),)), &[0, 1, 2, 1, 1]),
        70 => v.tree(|| (t(),(t(),(t(),)),(t(),),(t(),)), &[0, 1, 2, 1, 1]),
        71 => v.tree(|| (t(),(t(),t()),(t(),t())), &[0, 1, 2, 1, 2]),
        72 => v.tree(|| (t(),(t(),(t(),)),(t(),t())), &[0, 1, 2, 1, 2]),
        73 => v.tree(|| (t(),(t(),t()),(t(),(t(),))), &[0, 1, 2, 1, 2]),
        74 => v.tree(|| (t(),(t(),(t(),)),(t(),(t(),))), &[0, 1, 2, 1, 2]),
        75 => v.tree(|| (t(),(t(),t(),t()),t()), &[0, 1, 2, 2, 1]),
        76 => v.tree(|| (t(),(t(),(t(),),t()),t()), &[0, 1, 2, 2, 1]),
        77 => v.tree(|| (t(),(t(),t(),(t(),)),t()), &[0, 1, 2, 2, 1]),
        78 => v.tree(|| (t(),(t(),(t(),),(t(),)),t()), &[0, 1, 2, 2, 1]),
        79 => v.tree(|| (t(),(t(),t(),t()),(t(),)), &[0, 1, 2, 2, 1]),
        80 => v.tree(|| (t(),(t(),(t(),),t()),(t(),)), &[0, 1, 2, 2, 1]),
        81 => v.tree(|| (t(),(t(),t(),(t(),)),(t(),)), &[0, 1, 2, 2, 1]),
        82 => v.tree(|| (t(),(t(),(t(),),(t(),)),(t(),)), &[0, 1, 2, 2, 1]),
        83 => v.tree(|| (t(),(t(),(t(),t())),t()), &[0, 1, 2, 3, 1]),
        84 => v.tree(|| (t(),(t(),(t(),(t(),))),t()), &[0, 1, 2, 3, 1]),
        85 => v.tree(|| (t(),(t(),(t(),t())),(t(),)), &[0, 1, 2, 3, 1]),
        86 => v.tree(|| (t(),(t(),(t(),(t(),))),(t(),)), &[0, 1, 2, 3, 1]),
        87 => v.tree(|| (t(),(t(),t(),t(),t())), &[0, 1, 2, 2, 2]),
        88 => v.tree(|| (t(),(t(),(t(),),t(),t())), &[0, 1, 2, 2, 2]),
        89 => v.tree(|| (t(),(t(),t(),(t(),),t())), &[0, 1, 2, 2, 2]),
        90 => v.tree(|| (t(),(t(),(t(),),(t(),),t())), &[0, 1, 2, 2, 2]),
        91 => v.tree(|| (t(),(t(),t(),t(),(t(),))), &[0, 1, 2, 2, 2]),
        92 => v.tree(|| (t(),(t(),(t(),),t(),(t(),))), &[0, 1, 2, 2, 2]),
        93 => v.tree(|| (t(),(t(),t(),(t(),),(t(),))), &[0, 1, 2, 2, 2]),
        94 => v.tree(|| (t(),(t(),(t(),),(t(),),(t(),))), &[0, 1, 2, 2, 2]),
        95 => v.tree(|| (t(),(t(),t(),(t(),t()))), &[0, 1, 2, 2, 3]),
        96 => v.tree(|| (t(),(t(),(t(),),(t(),t()))), &[0, 1, 2, 2, 3]),
        97 => v.tree(|| (t(),(t(),t(),(t(),(t(),)))), &[0, 1, 2, 2, 3]),
        98 => v.tree(|| (t(),(t(),(t(),),(t(),(t(),)))), &[0, 1, 2, 2, 3]),
        99 => v.tree(|| (t(),(t(),(t(),t()),t())), &[0, 1, 2, 3, 2]),
        100 => v.tree(|| (t(),(t(),(t(),(t(),)),t())), &[0, 1, 2, 3, 2]),
        101 => v.tree(|| (t(),(t(),(t(),t()),(t(),))), &[0, 1, 2, 3, 2]),
        102 => v.tree(|| (t(),(t(),(t(),(t(),)),(t(),))), &[0, 1, 2, 3, 2]),
        103 => v.tree(|| (t(),(t(),(t(),t(),t()))), &[0, 1, 2, 3, 3]),
        104 => v.tree(|| (t(),(t(),(t(),(t(),),t()))), &[0, 1, 2, 3, 3]),
        105 => v.tree(|| (t(),(t(),(t(),t(),(t(),)))), &[0, 1, 2, 3, 3]),
        106 => v.tree(|| (t(),(t(),(t(),(t(),),(t(),)))), &[0, 1, 2, 3, 3]),
        107 => v.tree(|| (t(),(t(),(t(),(t(),t())))), &[0, 1, 2, 3, 4]),
        108 => v.tree(|| (t(),(t(),(t(),(t(),(t(),))))), &[0, 1, 2, 3, 4]),
        109 => v.tree(|| (t(),t(),t(),t(),t(),t()), &[0, 1, 1, 1, 1, 1]),
        110 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1, 1]),
        111 => v.tree(|| (t(),(t(),),t(),(t(),),t(),(t(),)), &[0, 1, 1, 1, 1, 1]),
        112 => v.tree(|| (t(),t(),t(),t(),(t(),t())), &[0, 1, 1, 1, 1, 2]),
        113 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),(t(),))), &[0, 1, 1, 1, 1, 2]),
        114 => v.tree(|| (t(),(t(),),t(),(t(),),(t(),t())), &[0, 1, 1, 1, 1, 2]),
        115 => v.tree(|| (t(),t(),t(),(t(),t()),t()), &[0, 1, 1, 1, 2, 1]),
        116 => v.tree(|| (t(),(t(),),(t(),),(t(),(t(),)),(t(),)), &[0, 1, 1, 1, 2, 1]),
        117 => v.tree(|| (t(),(t(),),t(),(t(),(t(),)),t()), &[0, 1, 1, 1, 2, 1]),
        118 => v.tree(|| (t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 2, 2]),
        119 => v.tree(|| (t(),(t(),),(t(),),(t(),(t(),),(t(),))), &[0, 1, 1, 1, 2, 2]),
        120 => v.tree(|| (t(),(t(),),t(),(t(),(t(),),t())), &[0, 1, 1, 1, 2, 2]),
        121 => v.tree(|| (t(),t(),t(),(t(),(t(),t()))), &[0, 1, 1, 1, 2, 3]),
        122 => v.tree(|| (t(),(t(),),(t(),),(t(),(t(),(t(),)))), &[0, 1, 1, 1, 2, 3]),
        123 => v.tree(|| (t(),(t(),),t(),(t(),(t(),(t(),)))), &[0, 1, 1, 1, 2, 3]),
        124 => v.tree(|| (t(),t(),(t(),t()),t(),t()), &[0, 1, 1, 2, 1, 1]),
        125 => v.tree(|| (t(),(t(),),(t(),(t(),)),(t(),),(t(),)), &[0, 1, 1, 2, 1, 1]),
        126 => v.tree(|| (t(),(t(),),(t(),t()),(t(),),t()), &[0, 1, 1, 2, 1, 1]),
        127 => v.tree(|| (t(),t(),(t(),t()),(t(),t())), &[0, 1, 1, 2, 1, 2]),
        128 => v.tree(|| (t(),(t(),),(t(),(t(),)),(t(),(t(),))), &[0, 1, 1, 2, 1, 2]),
        129 => v.tree(|| (t(),(t(),),(t(),t()),(t(),(t(),))), &[0, 1, 1, 2, 1, 2]),
        130 => v.tree(|| (t(),t(),(t(),t(),t()),t()), &[0, 1, 1, 2, 2, 1]),
        131 => v.tree(|| (t(),(t(),),(t(),(t(),),(t(),)),(t(),)), &[0, 1, 1, 2, 2, 1]),
        132 => v.tree(|| (t(),(t(),),(t(),t(),(t(),)),t()), &[0, 1, 1, 2, 2, 1]),
        133 => v.tree(|| (t(),t(),(t(),(t(),t())),t()), &[0, 1, 1, 2, 3, 1]),
        134 => v.tree(|| (t(),(t(),),(t(),(t(),(t(),))),(t(),)), &[0, 1, 1, 2, 3, 1]),
        135 => v.tree(|| (t(),(t(),),(t(),(t(),t())),(t(),)), &[0, 1, 1, 2, 3, 1]),
        136 => v.tree(|| (t(),t(),(t(),t(),t(),t())), &[0, 1, 1, 2, 2, 2]),
        137 => v.tree(|| (t(),(t(),),(t(),(t(),),(t(),),(t(),))), &[0, 1, 1, 2, 2, 2]),
        138 => v.tree(|| (t(),(t(),),(t(),t(),(t(),),t())), &[0, 1, 1, 2, 2, 2]),
        139 => v.tree(|| (t(),t(),(t(),t(),(t(),t()))), &[0, 1, 1, 2, 2, 3]),
        140 => v.tree(|| (t(),(t(),),(t(),(t(),),(t(),(t(),)))), &[0, 1, 1, 2, 2, 3]),
        141 => v.tree(|| (t(),(t(),),(t(),t(),(t(),(t(),)))), &[0, 1, 1, 2, 2, 3]),
        142 => v.tree(|| (t(),t(),(t(),(t(),t()),t())), &[0, 1, 1, 2, 3, 2]),
        143 => v.tree(|| (t(),(t(),),(t(),(t(),(t(),)),(t(),))), &[0, 1, 1, 2, 3, 2]),
        144 => v.tree(|| (t(),(t(),),(t(),(t(),t()),(t(),))), &[0, 1, 1, 2, 3, 2]),
        145 => v.tree(|| (t(),t(),(t(),(t(),t(),t()))), &[0, 1, 1, 2, 3, 3]),
        146 => v.tree(|| (t(),(t(),),(t(),(t(),(t(),),(t(),)))), &[0, 1, 1, 2, 3, 3]),
        147 => v.tree(|| (t(),(t(),),(t(),(t(),t(),(t(),)))), &[0, 1, 1, 2, 3, 3]),
        148 => v.tree(|| (t(),t(),(t(),(t(),(t(),t())))), &[0, 1, 1, 2, 3, 4]),
        149 => v.tree(|| (t(),(t(),),(t(),(t(),(t(),(t(),))))), &[0, 1, 1, 2, 3, 4]),
        150 => v.tree(|| (t(),(t(),),(t(),(t(),(t(),t())))), &[0, 1, 1, 2, 3, 4]),
        151 => v.tree(|| (t(),(t(),t()),t(),t(),t()), &[0, 1, 2, 1, 1, 1]),
        152 => v.tree(|| (t(),(t(),(t(),)),(t(),),(t(),),(t(),)), &[0, 1, 2, 1, 1, 1]),
        153 => v.tree(|| (t(),(t(),(t(),)),t(),(t(),),t()), &[0, 1, 2, 1, 1, 1]),
        154 => v.tree(|| (t(),(t(),t()),t(),(t(),t())), &[0, 1, 2, 1, 1, 2]),
        155 => v.tree(|| (t(),(t(),(t(),)),(t(),),(t(),(t(),))), &[0, 1, 2, 1, 1, 2]),
        156 => v.tree(|| (t(),(t(),(t(),)),t(),(t(),(t(),))), &[0, 1, 2, 1, 1, 2]),
        157 => v.tree(|| (t(),(t(),t()),(t(),t()),t()), &[0, 1, 2, 1, 2, 1]),
        158 => v.tree(|| (t(),(t(),(t(),)),(t(),(t(),)),(t(),)), &[0, 1, 2, 1, 2, 1]),
        159 => v.tree(|| (t(),(t(),(t(),)),(t(),t()),(t(),)), &[0, 1, 2, 1, 2, 1]),
        160 => v.tree(|| (t(),(t(),t()),(t(),t(),t())), &[0, 1, 2, 1, 2, 2]),
        161 => v.tree(|| (t(),(t(),(t(),)),(t(),(t(),),(t(),))), &[0, 1, 2, 1, 2, 2]),
        162 => v.tree(|| (t(),(t(),(t(),)),(t(),t(),(t(),))), &[0, 1, 2, 1, 2, 2]),
        163 => v.tree(|| (t(),(t(),t()),(t(),(t(),t()))), &[0, 1, 2, 1, 2, 3]),
        164 => v.tree(|| (t(),(t(),(t(),)),(t(),(t(),(t(),)))), &[0, 1, 2, 1, 2, 3]),
        165 => v.tree(|| (t(),(t(),(t(),)),(t(),(t(),t()))), &[0, 1, 2, 1, 2, 3]),
        166 => v.tree(|| (t(),(t(),t(),t()),t(),t()), &[0, 1, 2, 2, 1, 1]),
        167 => v.tree(|| (t(),(t(),(t(),),(t(),)),(t(),),(t(),)), &[0, 1, 2, 2, 1, 1]),
        168 => v.tree(|| (t(),(t(),(t(),),t()),(t(),),t()), &[0, 1, 2, 2, 1, 1]),
        169 => v.tree(|| (t(),(t(),t(),t()),(t(),t())), &[0, 1, 2, 2, 1, 2]),
        170 => v.tree(|| (t(),(t(),(t(),),(t(),)),(t(),(t(),))), &[0, 1, 2, 2, 1, 2]),
        171 => v.tree(|| (t(),(t(),(t(),),t()),(t(),(t(),))), &[0, 1, 2, 2, 1, 2]),
        172 => v.tree(|| (t(),(t(),(t(),t())),t(),t()), &[0, 1, 2, 3, 1, 1]),
        173 => v.tree(|| (t(),(t(),(t(),(t(),))),(t(),),(t(),)), &[0, 1, 2, 3, 1, 1]),
        174 => v.tree(|| (t(),(t(),(t(),(t(),))),t(),(t(),)), &[0, 1, 2, 3, 1, 1]),
        175 => v.tree(|| (t(),(t(),(t(),t())),(t(),t())), &[0, 1, 2, 3, 1, 2]),
        176 => v.tree(|| (t(),(t(),(t(),(t(),))),(t(),(t(),))), &[0, 1, 2, 3, 1, 2]),
        177 => v.tree(|| (t(),(t(),(t(),(t(),))),(t(),t())), &[0, 1, 2, 3, 1, 2]),
        178 => v.tree(|| (t(),(t(),t(),t(),t()),t()), &[0, 1, 2, 2, 2, 1]),
        179 => v.tree(|| (t(),(t(),(t(),),(t(),),(t(),)),(t(),)), &[0, 1, 2, 2, 2, 1]),
        180 => v.tree(|| (t(),(t(),(t(),),t(),(t(),)),t()), &[0, 1, 2, 2, 2, 1]),
        181 => v.tree(|| (t(),(t(),t(),(t(),t())),t()), &[0, 1, 2, 2, 3, 1]),
        182 => v.tree(|| (t(),(t(),(t(),),(t(),(t(),))),(t(),)), &[0, 1, 2, 2, 3, 1]),
        183 => v.tree(|| (t(),(t(),(t(),),(t(),t())),(t(),)), &[0, 1, 2, 2, 3, 1]),
        184 => v.tree(|| (t(),(t(),(t(),t()),t()),t()), &[0, 1, 2, 3, 2, 1]),
        185 => v.tree(|| (t(),(t(),(t(),(t(),)),(t(),)),(t(),)), &[0, 1, 2, 3, 2, 1]),
        186 => v.tree(|| (t(),(t(),(t(),(t(),)),t()),(t(),)), &[0, 1, 2, 3, 2, 1]),
        187 => v.tree(|| (t(),(t(),(t(),t(),t())),t()), &[0, 1, 2, 3, 3, 1]),
        188 => v.tree(|| (t(),(t(),(t(),(t(),),(t(),))),(t(),)), &[0, 1, 2, 3, 3, 1]),
        189 => v.tree(|| (t(),(t(),(t(),(t(),),t())),(t(),)), &[0, 1, 2, 3, 3, 1]),
        190 => v.tree(|| (t(),(t(),(t(),(t(),t()))),t()), &[0, 1, 2, 3, 4, 1]),
        191 => v.tree(|| (t(),(t(),(t(),(t(),(t(),)))),(t(),)), &[0, 1, 2, 3, 4, 1]),
        192 => v.tree(|| (t(),(t(),(t(),(t(),(t(),)))),t()), &[0, 1, 2, 3, 4, 1]),
        193 => v.tree(|| (t(),(t(),t(),t(),t(),t())), &[0, 1, 2, 2, 2, 2]),
        194 => v.tree(|| (t(),(t(),(t(),),(t(),),(t(),),(t(),))), &[0, 1, 2, 2, 2, 2]),
        195 => v.tree(|| (t(),(t(),(t(),),t(),(t(),),t())), &[0, 1, 2, 2, 2, 2]),
        196 => v.tree(|| (t(),(t(),t(),t(),(t(),t()))), &[0, 1, 2, 2, 2, 3]),
        197 => v.tree(|| (t(),(t(),(t(),),(t(),),(t(),(t(),)))), &[0, 1, 2, 2, 2, 3]),
        198 => v.tree(|| (t(),(t(),(t(),),t(),(t(),(t(),)))), &[0, 1, 2, 2, 2, 3]),
        199 => v.tree(|| (t(),(t(),t(),(t(),t()),t())), &[0, 1, 2, 2, 3, 2]),
        200 => v.tree(|| (t(),(t(),(t(),),(t(),(t(),)),(t(),))), &[0, 1, 2, 2, 3, 2]),
        201 => v.tree(|| (t(),(t(),(t(),),(t(),t()),(t(),))), &[0, 1, 2, 2, 3, 2]),
        202 => v.tree(|| (t(),(t(),t(),(t(),t(),t()))), &[0, 1, 2, 2, 3, 3]),
        203 => v.tree(|| (t(),(t(),(t(),),(t(),(t(),),(t(),)))), &[0, 1, 2, 2, 3, 3]),
        204 => v.tree(|| (t(),(t(),(t(),),(t(),t(),(t(),)))), &[0, 1, 2, 2, 3, 3]),
        205 => v.tree(|| (t(),(t(),t(),(t(),(t(),t())))), &[0, 1, 2, 2, 3, 4]),
        206 => v.tree(|| (t(),(t(),(t(),),(t(),(t(),(t(),))))), &[0, 1, 2, 2, 3, 4]),
        207 => v.tree(|| (t(),(t(),(t(),),(t(),(t(),t())))), &[0, 1, 2, 2, 3, 4]),
        208 => v.tree(|| (t(),(t(),(t(),t()),t(),t())), &[0, 1, 2, 3, 2, 2]),
        209 => v.tree(|| (t(),(t(),(t(),(t(),)),(t(),),(t(),))), &[0, 1, 2, 3, 2, 2]),
        210 => v.tree(|| (t(),(t(),(t(),(t(),)),t(),(t(),))), &[0, 1, 2, 3, 2, 2]),
        211 => v.tree(|| (t(),(t(),(t(),t()),(t(),t()))), &[0, 1, 2, 3, 2, 3]),
        212 => v.tree(|| (t(),(t(),(t(),(t(),)),(t(),(t(),)))), &[0, 1, 2, 3, 2, 3]),
        213 => v.tree(|| (t(),(t(),(t(),(t(),)),(t(),t()))), &[0, 1, 2, 3, 2, 3]),
        214 => v.tree(|| (t(),(t(),(t(),t(),t()),t())), &[0, 1, 2, 3, 3, 2]),
        215 => v.tree(|| (t(),(t(),(t(),(t(),),(t(),)),(t(),))), &[0, 1, 2, 3, 3, 2]),
        216 => v.tree(|| (t(),(t(),(t(),(t(),),t()),(t(),))), &[0, 1, 2, 3, 3, 2]),
        217 => v.tree(|| (t(),(t(),(t(),(t(),t())),t())), &[0, 1, 2, 3, 4, 2]),
        218 => v.tree(|| (t(),(t(),(t(),(t(),(t(),))),(t(),))), &[0, 1, 2, 3, 4, 2]),
        219 => v.tree(|| (t(),(t(),(t(),(t(),(t(),))),t())), &[0, 1, 2, 3, 4, 2]),
        220 => v.tree(|| (t(),(t(),(t(),t(),t(),t()))), &[0, 1, 2, 3, 3, 3]),
        221 => v.tree(|| (t(),(t(),(t(),(t(),),(t(),),(t(),)))), &[0, 1, 2, 3, 3, 3]),
        222 => v.tree(|| (t(),(t(),(t(),(t(),),t(),(t(),)))), &[0, 1, 2, 3, 3, 3]),
        223 => v.tree(|| (t(),(t(),(t(),t(),(t(),t())))), &[0, 1, 2, 3, 3, 4]),
        224 => v.tree(|| (t(),(t(),(t(),(t(),),(t(),(t(),))))), &[0, 1, 2, 3, 3, 4]),
        225 => v.tree(|| (t(),(t(),(t(),(t(),),(t(),t())))), &[0, 1, 2, 3, 3, 4]),
        226 => v.tree(|| (t(),(t(),(t(),(t(),t()),t()))), &[0, 1, 2, 3, 4, 3]),
        227 => v.tree(|| (t(),(t(),(t(),(t(),(t(),)),(t(),)))), &[0, 1, 2, 3, 4, 3]),
        228 => v.tree(|| (t(),(t(),(t(),(t(),(t(),)),t()))), &[0, 1, 2, 3, 4, 3]),
        229 => v.tree(|| (t(),(t(),(t(),(t(),t(),t())))), &[0, 1, 2, 3, 4, 4]),
        230 => v.tree(|| (t(),(t(),(t(),(t(),(t(),),(t(),))))), &[0, 1, 2, 3, 4, 4]),
        231 => v.tree(|| (t(),(t(),(t(),(t(),(t(),),t())))), &[0, 1, 2, 3, 4, 4]),
        232 => v.tree(|| (t(),(t(),(t(),(t(),(t(),t()))))), &[0, 1, 2, 3, 4, 5]),
        233 => v.tree(|| (t(),(t(),(t(),(t(),(t(),(t(),)))))), &[0, 1, 2, 3, 4, 5]),
        234 => v.tree(|| (t(),t(),t(),t(),t(),t(),t()), &[0, 1, 1, 1, 1, 1, 1]),
        235 => v.tree(|| (t(),t(),t(),t(),t(),(t(),t())), &[0, 1, 1, 1, 1, 1, 2]),
        236 => v.tree(|| (t(),t(),t(),t(),(t(),t()),t()), &[0, 1, 1, 1, 1, 2, 1]),
        237 => v.tree(|| (t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 2, 2]),
        238 => v.tree(|| (t(),t(),t(),t(),(t(),(t(),t()))), &[0, 1, 1, 1, 1, 2, 3]),
        239 => v.tree(|| (t(),t(),t(),(t(),t()),t(),t()), &[0, 1, 1, 1, 2, 1, 1]),
        240 => v.tree(|| (t(),t(),t(),(t(),t()),(t(),t())), &[0, 1, 1, 1, 2, 1, 2]),
        241 => v.tree(|| (t(),t(),t(),(t(),t(),t()),t()), &[0, 1, 1, 1, 2, 2, 1]),
        242 => v.tree(|| (t(),t(),t(),(t(),(t(),t())),t()), &[0, 1, 1, 1, 2, 3, 1]),
        243 => v.tree(|| (t(),t(),t(),(t(),t(),t(),t())), &[0, 1, 1, 1, 2, 2, 2]),
        244 => v.tree(|| (t(),t(),t(),(t(),t(),(t(),t()))), &[0, 1, 1, 1, 2, 2, 3]),
        245 => v.tree(|| (t(),t(),t(),(t(),(t(),t()),t())), &[0, 1, 1, 1, 2, 3, 2]),
        246 => v.tree(|| (t(),t(),t(),(t(),(t(),t(),t()))), &[0, 1, 1, 1, 2, 3, 3]),
        247 => v.tree(|| (t(),t(),t(),(t(),(t(),(t(),t())))), &[0, 1, 1, 1, 2, 3, 4]),
        248 => v.tree(|| (t(),t(),(t(),t()),t(),t(),t()), &[0, 1, 1, 2, 1, 1, 1]),
        249 => v.tree(|| (t(),t(),(t(),t()),t(),(t(),t())), &[0, 1, 1, 2, 1, 1, 2]),
        250 => v.tree(|| (t(),t(),(t(),t()),(t(),t()),t()), &[0, 1, 1, 2, 1, 2, 1]),
        251 => v.tree(|| (t(),t(),(t(),t()),(t(),t(),t())), &[0, 1, 1, 2, 1, 2, 2]),
        252 => v.tree(|| (t(),t(),(t(),t()),(t(),(t(),t()))), &[0, 1, 1, 2, 1, 2, 3]),
        253 => v.tree(|| (t(),t(),(t(),t(),t()),t(),t()), &[0, 1, 1, 2, 2, 1, 1]),
        254 => v.tree(|| (t(),t(),(t(),t(),t()),(t(),t())), &[0, 1, 1, 2, 2, 1, 2]),
        255 => v.tree(|| (t(),t(),(t(),(t(),t())),t(),t()), &[0, 1, 1, 2, 3, 1, 1]),
        256 => v.tree(|| (t(),t(),(t(),(t(),t())),(t(),t())), &[0, 1, 1, 2, 3, 1, 2]),
        257 => v.tree(|| (t(),t(),(t(),t(),t(),t()),t()), &[0, 1, 1, 2, 2, 2, 1]),
        258 => v.tree(|| (t(),t(),(t(),t(),(t(),t())),t()), &[0, 1, 1, 2, 2, 3, 1]),
        259 => v.tree(|| (t(),t(),(t(),(t(),t()),t()),t()), &[0, 1, 1, 2, 3, 2, 1]),
        260 => v.tree(|| (t(),t(),(t(),(t(),t(),t())),t()), &[0, 1, 1, 2, 3, 3, 1]),
        261 => v.tree(|| (t(),t(),(t(),(t(),(t(),t()))),t()), &[0, 1, 1, 2, 3, 4, 1]),
        262 => v.tree(|| (t(),t(),(t(),t(),t(),t(),t())), &[0, 1, 1, 2, 2, 2, 2]),
        263 => v.tree(|| (t(),t(),(t(),t(),t(),(t(),t()))), &[0, 1, 1, 2, 2, 2, 3]),
        264 => v.tree(|| (t(),t(),(t(),t(),(t(),t()),t())), &[0, 1, 1, 2, 2, 3, 2]),
        265 => v.tree(|| (t(),t(),(t(),t(),(t(),t(),t()))), &[0, 1, 1, 2, 2, 3, 3]),
        266 => v.tree(|| (t(),t(),(t(),t(),(t(),(t(),t())))), &[0, 1, 1, 2, 2, 3, 4]),
        267 => v.tree(|| (t(),t(),(t(),(t(),t()),t(),t())), &[0, 1, 1, 2, 3, 2, 2]),
        268 => v.tree(|| (t(),t(),(t(),(t(),t()),(t(),t()))), &[0, 1, 1, 2, 3, 2, 3]),
        269 => v.tree(|| (t(),t(),(t(),(t(),t(),t()),t())), &[0, 1, 1, 2, 3, 3, 2]),
        270 => v.tree(|| (t(),t(),(t(),(t(),(t(),t())),t())), &[0, 1, 1, 2, 3, 4, 2]),
        271 => v.tree(|| (t(),t(),(t(),(t(),t(),t(),t()))), &[0, 1, 1, 2, 3, 3, 3]),
        272 => v.tree(|| (t(),t(),(t(),(t(),t(),(t(),t())))), &[0, 1, 1, 2, 3, 3, 4]),
        273 => v.tree(|| (t(),t(),(t(),(t(),(t(),t()),t()))), &[0, 1, 1, 2, 3, 4, 3]),
        274 => v.tree(|| (t(),t(),(t(),(t(),(t(),t(),t())))), &[0, 1, 1, 2, 3, 4, 4]),
        275 => v.tree(|| (t(),t(),(t(),(t(),(t(),(t(),t()))))), &[0, 1, 1, 2, 3, 4, 5]),
        276 => v.tree(|| (t(),(t(),t()),t(),t(),t(),t()), &[0, 1, 2, 1, 1, 1, 1]),
        277 => v.tree(|| (t(),(t(),t()),t(),t(),(t(),t())), &[0, 1, 2, 1, 1, 1, 2]),
        278 => v.tree(|| (t(),(t(),t()),t(),(t(),t()),t()), &[0, 1, 2, 1, 1, 2, 1]),
        279 => v.tree(|| (t(),(t(),t()),t(),(t(),t(),t())), &[0, 1, 2, 1, 1, 2, 2]),
        280 => v.tree(|| (t(),(t(),t()),t(),(t(),(t(),t()))), &[0, 1, 2, 1, 1, 2, 3]),
        281 => v.tree(|| (t(),(t(),t()),(t(),t()),t(),t()), &[0, 1, 2, 1, 2, 1, 1]),
        282 => v.tree(|| (t(),(t(),t()),(t(),t()),(t(),t())), &[0, 1, 2, 1, 2, 1, 2]),
        283 => v.tree(|| (t(),(t(),t()),(t(),t(),t()),t()), &[0, 1, 2, 1, 2, 2, 1]),
        284 => v.tree(|| (t(),(t(),t()),(t(),(t(),t())),t()), &[0, 1, 2, 1, 2, 3, 1]),
        285 => v.tree(|| (t(),(t(),t()),(t(),t(),t(),t())), &[0, 1, 2, 1, 2, 2, 2]),
        286 => v.tree(|| (t(),(t(),t()),(t(),t(),(t(),t()))), &[0, 1, 2, 1, 2, 2, 3]),
        287 => v.tree(|| (t(),(t(),t()),(t(),(t(),t()),t())), &[0, 1, 2, 1, 2, 3, 2]),
        288 => v.tree(|| (t(),(t(),t()),(t(),(t(),t(),t()))), &[0, 1, 2, 1, 2, 3, 3]),
        289 => v.tree(|| (t(),(t(),t()),(t(),(t(),(t(),t())))), &[0, 1, 2, 1, 2, 3, 4]),
        290 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1]),
        291 => v.tree(|| (t(),(t(),t(),t()),t(),(t(),t())), &[0, 1, 2, 2, 1, 1, 2]),
        292 => v.tree(|| (t(),(t(),t(),t()),(t(),t()),t()), &[0, 1, 2, 2, 1, 2, 1]),
        293 => v.tree(|| (t(),(t(),t(),t()),(t(),t(),t())), &[0, 1, 2, 2, 1, 2, 2]),
        294 => v.tree(|| (t(),(t(),t(),t()),(t(),(t(),t()))), &[0, 1, 2, 2, 1, 2, 3]),
        295 => v.tree(|| (t(),(t(),(t(),t())),t(),t(),t()), &[0, 1, 2, 3, 1, 1, 1]),
        296 => v.tree(|| (t(),(t(),(t(),t())),t(),(t(),t())), &[0, 1, 2, 3, 1, 1, 2]),
        297 => v.tree(|| (t(),(t(),(t(),t())),(t(),t()),t()), &[0, 1, 2, 3, 1, 2, 1]),
        298 => v.tree(|| (t(),(t(),(t(),t())),(t(),t(),t())), &[0, 1, 2, 3, 1, 2, 2]),
        299 => v.tree(|| (t(),(t(),(t(),t())),(t(),(t(),t()))), &[0, 1, 2, 3, 1, 2, 3]),
        300 => v.tree(|| (t(),(t(),t(),t(),t()),t(),t()), &[0, 1, 2, 2, 2, 1, 1]),
        301 => v.tree(|| (t(),(t(),t(),t(),t()),(t(),t())), &[0, 1, 2, 2, 2, 1, 2]),
        302 => v.tree(|| (t(),(t(),t(),(t(),t())),t(),t()), &[0, 1, 2, 2, 3, 1, 1]),
        303 => v.tree(|| (t(),(t(),t(),(t(),t())),(t(),t())), &[0, 1, 2, 2, 3, 1, 2]),
        304 => v.tree(|| (t(),(t(),(t(),t()),t()),t(),t()), &[0, 1, 2, 3, 2, 1, 1]),
        305 => v.tree(|| (t(),(t(),(t(),t()),t()),(t(),t())), &[0, 1, 2, 3, 2, 1, 2]),
        306 => v.tree(|| (t(),(t(),(t(),t(),t())),t(),t()), &[0, 1, 2, 3, 3, 1, 1]),
        307 => v.tree(|| (t(),(t(),(t(),t(),t())),(t(),t())), &[0, 1, 2, 3, 3, 1, 2]),
        308 => v.tree(|| (t(),(t(),(t(),(t(),t()))),t(),t()), &[0, 1, 2, 3, 4, 1, 1]),
        309 => v.tree(|| (t(),(t(),(t(),(t(),t()))),(t(),t())), &[0, 1, 2, 3, 4, 1, 2]),
        310 => v.tree(|| (t(),(t(),t(),t(),t(),t()),t()), &[0, 1, 2, 2, 2, 2, 1]),
        311 => v.tree(|| (t(),(t(),t(),t(),(t(),t())),t()), &[0, 1, 2, 2, 2, 3, 1]),
        312 => v.tree(|| (t(),(t(),t(),(t(),t()),t()),t()), &[0, 1, 2, 2, 3, 2, 1]),
        313 => v.tree(|| (t(),(t(),t(),(t(),t(),t())),t()), &[0, 1, 2, 2, 3, 3, 1]),
        314 => v.tree(|| (t(),(t(),t(),(t(),(t(),t()))),t()), &[0, 1, 2, 2, 3, 4, 1]),
        315 => v.tree(|| (t(),(t(),(t(),t()),t(),t()),t()), &[0, 1, 2, 3, 2, 2, 1]),
        316 => v.tree(|| (t(),(t(),(t(),t()),(t(),t())),t()), &[0, 1, 2, 3, 2, 3, 1]),
        317 => v.tree(|| (t(),(t(),(t(),t(),t()),t()),t()), &[0, 1, 2, 3, 3, 2, 1]),
        318 => v.tree(|| (t(),(t(),(t(),(t(),t())),t()),t()), &[0, 1, 2, 3, 4, 2, 1]),
        319 => v.tree(|| (t(),(t(),(t(),t(),t(),t())),t()), &[0, 1, 2, 3, 3, 3, 1]),
        320 => v.tree(|| (t(),(t(),(t(),t(),(t(),t()))),t()), &[0, 1, 2, 3, 3, 4, 1]),
        321 => v.tree(|| (t(),(t(),(t(),(t(),t()),t())),t()), &[0, 1, 2, 3, 4, 3, 1]),
        322 => v.tree(|| (t(),(t(),(t(),(t(),t(),t()))),t()), &[0, 1, 2, 3, 4, 4, 1]),
        323 => v.tree(|| (t(),(t(),(t(),(t(),(t(),t())))),t()), &[0, 1, 2, 3, 4, 5, 1]),
        324 => v.tree(|| (t(),(t(),t(),t(),t(),t(),t())), &[0, 1, 2, 2, 2, 2, 2]),
        325 => v.tree(|| (t(),(t(),t(),t(),t(),(t(),t()))), &[0, 1, 2, 2, 2, 2, 3]),
        326 => v.tree(|| (t(),(t(),t(),t(),(t(),t()),t())), &[0, 1, 2, 2, 2, 3, 2]),
        327 => v.tree(|| (t(),(t(),t(),t(),(t(),t(),t()))), &[0, 1, 2, 2, 2, 3, 3]),
        328 => v.tree(|| (t(),(t(),t(),t(),(t(),(t(),t())))), &[0, 1, 2, 2, 2, 3, 4]),
        329 => v.tree(|| (t(),(t(),t(),(t(),t()),t(),t())), &[0, 1, 2, 2, 3, 2, 2]),
        330 => v.tree(|| (t(),(t(),t(),(t(),t()),(t(),t()))), &[0, 1, 2, 2, 3, 2, 3]),
        331 => v.tree(|| (t(),(t(),t(),(t(),t(),t()),t())), &[0, 1, 2, 2, 3, 3, 2]),
        332 => v.tree(|| (t(),(t(),t(),(t(),(t(),t())),t())), &[0, 1, 2, 2, 3, 4, 2]),
        333 => v.tree(|| (t(),(t(),t(),(t(),t(),t(),t()))), &[0, 1, 2, 2, 3, 3, 3]),
        334 => v.tree(|| (t(),(t(),t(),(t(),t(),(t(),t())))), &[0, 1, 2, 2, 3, 3, 4]),
        335 => v.tree(|| (t(),(t(),t(),(t(),(t(),t()),t()))), &[0, 1, 2, 2, 3, 4, 3]),
        336 => v.tree(|| (t(),(t(),t(),(t(),(t(),t(),t())))), &[0, 1, 2, 2, 3, 4, 4]),
        337 => v.tree(|| (t(),(t(),t(),(t(),(t(),(t(),t()))))), &[0, 1, 2, 2, 3, 4, 5]),
        338 => v.tree(|| (t(),(t(),(t(),t()),t(),t(),t())), &[0, 1, 2, 3, 2, 2, 2]),
        339 => v.tree(|| (t(),(t(),(t(),t()),t(),(t(),t()))), &[0, 1, 2, 3, 2, 2, 3]),
        340 => v.tree(|| (t(),(t(),(t(),t()),(t(),t()),t())), &[0, 1, 2, 3, 2, 3, 2]),
        341 => v.tree(|| (t(),(t(),(t(),t()),(t(),t(),t()))), &[0, 1, 2, 3, 2, 3, 3]),
        342 => v.tree(|| (t(),(t(),(t(),t()),(t(),(t(),t())))), &[0, 1, 2, 3, 2, 3, 4]),
        343 => v.tree(|| (t(),(t(),(t(),t(),t()),t(),t())), &[0, 1, 2, 3, 3, 2, 2]),
        344 => v.tree(|| (t(),(t(),(t(),t(),t()),(t(),t()))), &[0, 1, 2, 3, 3, 2, 3]),
        345 => v.tree(|| (t(),(t(),(t(),(t(),t())),t(),t())), &[0, 1, 2, 3, 4, 2, 2]),
        346 => v.tree(|| (t(),(t(),(t(),(t(),t())),(t(),t()))), &[0, 1, 2, 3, 4, 2, 3]),
        347 => v.tree(|| (t(),(t(),(t(),t(),t(),t()),t())), &[0, 1, 2, 3, 3, 3, 2]),
        348 => v.tree(|| (t(),(t(),(t(),t(),(t(),t())),t())), &[0, 1, 2, 3, 3, 4, 2]),
        349 => v.tree(|| (t(),(t(),(t(),(t(),t()),t()),t())), &[0, 1, 2, 3, 4, 3, 2]),
        350 => v.tree(|| (t(),(t(),(t(),(t(),t(),t())),t())), &[0, 1, 2, 3, 4, 4, 2]),
        351 => v.tree(|| (t(),(t(),(t(),(t(),(t(),t()))),t())), &[0, 1, 2, 3, 4, 5, 2]),
        352 => v.tree(|| (t(),(t(),(t(),t(),t(),t(),t()))), &[0, 1, 2, 3, 3, 3, 3]),
        353 => v.tree(|| (t(),(t(),(t(),t(),t(),(t(),t())))), &[0, 1, 2, 3, 3, 3, 4]),
        354 => v.tree(|| (t(),(t(),(t(),t(),(t(),t()),t()))), &[0, 1, 2, 3, 3, 4, 3]),
        355 => v.tree(|| (t(),(t(),(t(),t(),(t(),t(),t())))), &[0, 1, 2, 3, 3, 4, 4]),
        356 => v.tree(|| (t(),(t(),(t(),t(),(t(),(t(),t()))))), &[0, 1, 2, 3, 3, 4, 5]),
        357 => v.tree(|| (t(),(t(),(t(),(t(),t()),t(),t()))), &[0, 1, 2, 3, 4, 3, 3]),
        358 => v.tree(|| (t(),(t(),(t(),(t(),t()),(t(),t())))), &[0, 1, 2, 3, 4, 3, 4]),
        359 => v.tree(|| (t(),(t(),(t(),(t(),t(),t()),t()))), &[0, 1, 2, 3, 4, 4, 3]),
        360 => v.tree(|| (t(),(t(),(t(),(t(),(t(),t())),t()))), &[0, 1, 2, 3, 4, 5, 3]),
        361 => v.tree(|| (t(),(t(),(t(),(t(),t(),t(),t())))), &[0, 1, 2, 3, 4, 4, 4]),
        362 => v.tree(|| (t(),(t(),(t(),(t(),t(),(t(),t()))))), &[0, 1, 2, 3, 4, 4, 5]),
        363 => v.tree(|| (t(),(t(),(t(),(t(),(t(),t()),t())))), &[0, 1, 2, 3, 4, 5, 4]),
        364 => v.tree(|| (t(),(t(),(t(),(t(),(t(),t(),t()))))), &[0, 1, 2, 3, 4, 5, 5]),
        365 => v.tree(|| (t(),(t(),(t(),(t(),(t(),(t(),t())))))), &[0, 1, 2, 3, 4, 5, 6]),
        366 => v.tree(|| (t(),(t(),(t(),(t(),(t(),(t(),(t(),(t(),(t(),t()))))))))), &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9]),
        367 => v.tree(|| (t(),(t(),(t(),(t(),(t(),(t(),(t(),(t(),(t(),(t(),(t(),(t(),(t(),(t(),(t(),(t(),(t(),t()))))))))))))))))), &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17]),
        368 => v.tree(|| (t(),t(),(t(),t(),(t(),t(),(t(),t(),(t(),t(),(t(),t(),(t(),t(),t()))))))), &[0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7]),
        _ => v.tree(|| (t(),(t(),(t(),(t(),(t(),(t(),(t(),t(),t()),t()),t()),t()),t()),t()),t()), &[0, 1, 2, 3, 4, 5, 6, 7, 7, 6, 5, 4, 3, 2, 1]),
    }
}
pub const TREE_ARITY: usize = 111;
pub fn tree_arity<V: Kind>(k: usize, v: &V) {
    match k {
        0 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1, 1]),
        1 => v.tree(|| (t(),t(),t(),(t(),t(),t()),t(),t()), &[0, 1, 1, 1, 2, 2, 1, 1]),
        2 => v.tree(|| (t(),t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 1, 2, 2]),
        3 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1, 1, 1]),
        4 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1, 1, 1]),
        5 => v.tree(|| (t(),t(),t(),t(),(t(),t(),t()),t(),t()), &[0, 1, 1, 1, 1, 2, 2, 1, 1]),
        6 => v.tree(|| (t(),t(),t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 1, 1, 2, 2]),
        7 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1, 1, 1, 1]),
        8 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t(),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1, 1, 1, 1]),
        9 => v.tree(|| (t(),t(),t(),t(),(t(),t(),t()),t(),t(),t()), &[0, 1, 1, 1, 1, 2, 2, 1, 1, 1]),
        10 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 1, 1, 1, 2, 2]),
        11 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1, 1, 1, 1, 1]),
        12 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1]),
        13 => v.tree(|| (t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t()), &[0, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1]),
        14 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2]),
        15 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        16 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1]),
        17 => v.tree(|| (t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t()), &[0, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1]),
        18 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2]),
        19 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        20 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        21 => v.tree(|| (t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t()), &[0, 1, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1]),
        22 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2]),
        23 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        24 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        25 => v.tree(|| (t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t()), &[0, 1, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1]),
        26 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2]),
        27 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        28 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        29 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t()), &[0, 1, 1, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1]),
        30 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2]),
        31 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        32 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        33 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t()), &[0, 1, 1, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1, 1]),
        34 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2]),
        35 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        36 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        37 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t()), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1, 1]),
        38 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2]),
        39 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        40 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        41 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1]),
        42 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2]),
        43 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        44 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        45 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1]),
        46 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2]),
        47 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        48 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        49 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1]),
        50 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2]),
        51 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        52 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        53 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1]),
        54 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2]),
        55 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        56 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        57 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        58 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2]),
        59 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        60 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        61 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        62 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2]),
        63 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        64 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        65 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        66 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2]),
        67 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        68 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        69 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        70 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2]),
        71 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        72 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        73 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        74 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2]),
        75 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        76 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        77 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        78 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2]),
        79 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        80 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        81 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        82 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2]),
        83 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        84 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        85 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        86 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2]),
        87 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        88 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        89 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        90 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2]),
        91 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        92 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        93 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        94 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2]),
        95 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        96 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        97 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        98 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2]),
        99 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        100 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        101 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        102 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2]),
        103 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        104 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        105 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        106 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2]),
        107 => v.tree(|| (t(),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),),(t(),)), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        108 => v.tree(|| (t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        109 => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        _ => v.tree(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t())), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2]),
    }
}
pub const FOREST_CASES: usize = 324;
pub fn forest_cases<V: Kind>(k: usize, v: &V) {
    match k {
        0 => v.forest(|| (), &[]),
        1 => v.forest(|| (t(),), &[0]),
        2 => v.forest(|| ((t(),),), &[0]),
        3 => v.forest(|| (t(),t(),), &[0, 0]),
        4 => v.forest(|| ((t(),),(t(),),), &[0, 0]),
        5 => v.forest(|| ((t(),t()),), &[0, 1]),
        6 => v.forest(|| ((t(),(t(),)),), &[0, 1]),
        7 => v.forest(|| (t(),t(),t(),), &[0, 0, 0]),
        8 => v.forest(|| ((t(),),(t(),),(t(),),), &[0, 0, 0]),
        9 => v.forest(|| (t(),(t(),t()),), &[0, 0, 1]),
        10 => v.forest(|| ((t(),),(t(),(t(),)),), &[0, 0, 1]),
        11 => v.forest(|| ((t(),t()),t(),), &[0, 1, 0]),
        12 => v.forest(|| ((t(),(t(),)),(t(),),), &[0, 1, 0]),
        13 => v.forest(|| ((t(),t(),t()),), &[0, 1, 1]),
        14 => v.forest(|| ((t(),(t(),),(t(),)),), &[0, 1, 1]),
        15 => v.forest(|| ((t(),(t(),),t()),), &[0, 1, 1]),
        16 => v.forest(|| ((t(),t(),(t(),)),), &[0, 1, 1]),
        17 => v.forest(|| ((t(),(t(),t())),), &[0, 1, 2]),
        18 => v.forest(|| ((t(),(t(),(t(),))),), &[0, 1, 2]),
        19 => v.forest(|| (t(),t(),t(),t(),), &[0, 0, 0, 0]),
        20 => v.forest(|| ((t(),),(t(),),(t(),),(t(),),), &[0, 0, 0, 0]),
        21 => v.forest(|| (t(),t(),(t(),t()),), &[0, 0, 0, 1]),
        22 => v.forest(|| ((t(),),(t(),),(t(),(t(),)),), &[0, 0, 0, 1]),
        23 => v.forest(|| (t(),(t(),t()),t(),), &[0, 0, 1, 0]),
        24 => v.forest(|| ((t(),),(t(),(t(),)),(t(),),), &[0, 0, 1, 0]),
        25 => v.forest(|| (t(),(t(),t(),t()),), &[0, 0, 1, 1]),
        26 => v.forest(|| ((t(),),(t(),(t(),),(t(),)),), &[0, 0, 1, 1]),
        27 => v.forest(|| ((t(),),(t(),t(),t()),), &[0, 0, 1, 1]),
        28 => v.forest(|| (t(),(t(),(t(),),t()),), &[0, 0, 1, 1]),
        29 => v.forest(|| (t(),(t(),(t(),t())),), &[0, 0, 1, 2]),
        30 => v.forest(|| ((t(),),(t(),(t(),(t(),))),), &[0, 0, 1, 2]),
        31 => v.forest(|| ((t(),t()),t(),t(),), &[0, 1, 0, 0]),
        32 => v.forest(|| ((t(),(t(),)),(t(),),(t(),),), &[0, 1, 0, 0]),
        33 => v.forest(|| ((t(),t()),(t(),t()),), &[0, 1, 0, 1]),
        34 => v.forest(|| ((t(),(t(),)),(t(),(t(),)),), &[0, 1, 0, 1]),
        35 => v.forest(|| ((t(),t(),t()),t(),), &[0, 1, 1, 0]),
        36 => v.forest(|| ((t(),(t(),),(t(),)),(t(),),), &[0, 1, 1, 0]),
        37 => v.forest(|| ((t(),(t(),),t()),t(),), &[0, 1, 1, 0]),
        38 => v.forest(|| ((t(),t(),(t(),)),t(),), &[0, 1, 1, 0]),
        39 => v.forest(|| ((t(),(t(),t())),t(),), &[0, 1, 2, 0]),
        40 => v.forest(|| ((t(),(t(),(t(),))),(t(),),), &[0, 1, 2, 0]),
        41 => v.forest(|| ((t(),t(),t(),t()),), &[0, 1, 1, 1]),
        42 => v.forest(|| ((t(),(t(),),(t(),),(t(),)),), &[0, 1, 1, 1]),
        43 => v.forest(|| ((t(),(t(),),t(),t()),), &[0, 1, 1, 1]),
        44 => v.forest(|| ((t(),t(),(t(),),t()),), &[0, 1, 1, 1]),
        45 => v.forest(|| ((t(),(t(),),(t(),),t()),), &[0, 1, 1, 1]),
        46 => v.forest(|| ((t(),t(),t(),(t(),)),), &[0, 1, 1, 1]),
        47 => v.forest(|| ((t(),(t(),),t(),(t(),)),), &[0, 1, 1, 1]),
        48 => v.forest(|| ((t(),t(),(t(),),(t(),)),), &[0, 1, 1, 1]),
        49 => v.forest(|| ((t(),t(),(t(),t())),), &[0, 1, 1, 2]),
        50 => v.forest(|| ((t(),(t(),),(t(),(t(),))),), &[0, 1, 1, 2]),
        51 => v.forest(|| ((t(),(t(),),(t(),t())),), &[0, 1, 1, 2]),
        52 => v.forest(|| ((t(),t(),(t(),(t(),))),), &[0, 1, 1, 2]),
        53 => v.forest(|| ((t(),(t(),t()),t()),), &[0, 1, 2, 1]),
        54 => v.forest(|| ((t(),(t(),(t(),)),(t(),)),), &[0, 1, 2, 1]),
        55 => v.forest(|| ((t(),(t(),(t(),)),t()),), &[0, 1, 2, 1]),
        56 => v.forest(|| ((t(),(t(),t()),(t(),)),), &[0, 1, 2, 1]),
        57 => v.forest(|| ((t(),(t(),t(),t())),), &[0, 1, 2, 2]),
        58 => v.forest(|| ((t(),(t(),(t(),),(t(),))),), &[0, 1, 2, 2]),
        59 => v.forest(|| ((t(),(t(),(t(),),t())),), &[0, 1, 2, 2]),
        60 => v.forest(|| ((t(),(t(),t(),(t(),))),), &[0, 1, 2, 2]),
        61 => v.forest(|| ((t(),(t(),(t(),t()))),), &[0, 1, 2, 3]),
        62 => v.forest(|| ((t(),(t(),(t(),(t(),)))),), &[0, 1, 2, 3]),
        63 => v.forest(|| (t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0]),
        64 => v.forest(|| ((t(),),(t(),),(t(),),(t(),),(t(),),), &[0, 0, 0, 0, 0]),
        65 => v.forest(|| ((t(),),t(),(t(),),t(),(t(),),), &[0, 0, 0, 0, 0]),
        66 => v.forest(|| (t(),t(),t(),(t(),t()),), &[0, 0, 0, 0, 1]),
        67 => v.forest(|| ((t(),),(t(),),(t(),),(t(),(t(),)),), &[0, 0, 0, 0, 1]),
        68 => v.forest(|| ((t(),),t(),(t(),),(t(),t()),), &[0, 0, 0, 0, 1]),
        69 => v.forest(|| (t(),t(),(t(),t()),t(),), &[0, 0, 0, 1, 0]),
        70 => v.forest(|| ((t(),),(t(),),(t(),(t(),)),(t(),),), &[0, 0, 0, 1, 0]),
        71 => v.forest(|| ((t(),),t(),(t(),(t(),)),t(),), &[0, 0, 0, 1, 0]),
        72 => v.forest(|| (t(),t(),(t(),t(),t()),), &[0, 0, 0, 1, 1]),
        73 => v.forest(|| ((t(),),(t(),),(t(),(t(),),(t(),)),), &[0, 0, 0, 1, 1]),
        74 => v.forest(|| ((t(),),t(),(t(),(t(),),t()),), &[0, 0, 0, 1, 1]),
        75 => v.forest(|| (t(),t(),(t(),(t(),t())),), &[0, 0, 0, 1, 2]),
        76 => v.forest(|| ((t(),),(t(),),(t(),(t(),(t(),))),), &[0, 0, 0, 1, 2]),
        77 => v.forest(|| ((t(),),t(),(t(),(t(),(t(),))),), &[0, 0, 0, 1, 2]),
        78 => v.forest(|| (t(),(t(),t()),t(),t(),), &[0, 0, 1, 0, 0]),
        79 => v.forest(|| ((t(),),(t(),(t(),)),(t(),),(t(),),), &[0, 0, 1, 0, 0]),
        80 => v.forest(|| ((t(),),(t(),t()),(t(),),t(),), &[0, 0, 1, 0, 0]),
        81 => v.forest(|| (t(),(t(),t()),(t(),t()),), &[0, 0, 1, 0, 1]),
        82 => v.forest(|| ((t(),),(t(),(t(),)),(t(),(t(),)),), &[0, 0, 1, 0, 1]),
        83 => v.forest(|| ((t(),),(t(),t()),(t(),(t(),)),), &[0, 0, 1, 0, 1]),
        84 => v.forest(|| (t(),(t(),t(),t()),t(),), &[0, 0, 1, 1, 0]),
        85 => v.forest(|| ((t(),),(t(),(t(),),(t(),)),(t(),),), &[0, 0, 1, 1, 0]),
        86 => v.forest(|| ((t(),),(t(),t(),(t(),)),t(),), &[0, 0, 1, 1, 0]),
        87 => v.forest(|| (t(),(t(),(t(),t())),t(),), &[0, 0, 1, 2, 0]),
        88 => v.forest(|| ((t(),),(t(),(t(),(t(),))),(t(),),), &[0, 0, 1, 2, 0]),
        89 => v.forest(|| ((t(),),(t(),(t(),t())),(t(),),), &[0, 0, 1, 2, 0]),
        90 => v.forest(|| (t(),(t(),t(),t(),t()),), &[0, 0, 1, 1, 1]),
        91 => v.forest(|| ((t(),),(t(),(t(),),(t(),),(t(),)),), &[0, 0, 1, 1, 1]),
        92 => v.forest(|| ((t(),),(t(),t(),(t(),),t()),), &[0, 0, 1, 1, 1]),
        93 => v.forest(|| (t(),(t(),t(),(t(),t())),), &[0, 0, 1, 1, 2]),
        94 => v.forest(|| ((t(),),(t(),(t(),),(t(),(t(),))),), &[0, 0, 1, 1, 2]),
        95 => v.forest(|| ((t(),),(t(),t(),(t(),(t(),))),), &[0, 0, 1, 1, 2]),
        96 => v.forest(|| (t(),(t(),(t(),t()),t()),), &[0, 0, 1, 2, 1]),
        97 => v.forest(|| ((t(),),(t(),(t(),(t(),)),(t(),)),), &[0, 0, 1, 2, 1]),
        98 => v.forest(|| ((t(),),(t(),(t(),t()),(t(),)),), &[0, 0, 1, 2, 1]),
        99 => v.forest(|| (t(),(t(),(t(),t(),t())),), &[0, 0, 1, 2, 2]),
        100 => v.forest(|| ((t(),),(t(),(t(),(t(),),(t(),))),), &[0, 0, 1, 2, 2]),
        101 => v.forest(|| ((t(),),(t(),(t(),t(),(t(),))),), &[0, 0, 1, 2, 2]),
        102 => v.forest(|| (t(),(t(),(t(),(t(),t()))),), &[0, 0, 1, 2, 3]),
        103 => v.forest(|| ((t(),),(t(),(t(),(t(),(t(),)))),), &[0, 0, 1, 2, 3]),
        104 => v.forest(|| ((t(),),(t(),(t(),(t(),t()))),), &[0, 0, 1, 2, 3]),
        105 => v.forest(|| ((t(),t()),t(),t(),t(),), &[0, 1, 0, 0, 0]),
        106 => v.forest(|| ((t(),(t(),)),(t(),),(t(),),(t(),),), &[0, 1, 0, 0, 0]),
        107 => v.forest(|| ((t(),(t(),)),t(),(t(),),t(),), &[0, 1, 0, 0, 0]),
        108 => v.forest(|| ((t(),t()),t(),(t(),t()),), &[0, 1, 0, 0, 1]),
        109 => v.forest(|| ((t(),(t(),)),(t(),),(t(),(t(),)),), &[0, 1, 0, 0, 1]),
        110 => v.forest(|| ((t(),(t(),)),t(),(t(),(t(),)),), &[0, 1, 0, 0, 1]),
        111 => v.forest(|| ((t(),t()),(t(),t()),t(),), &[0, 1, 0, 1, 0]),
        112 => v.forest(|| ((t(),(t(),)),(t(),(t(),)),(t(),),), &[0, 1, 0, 1, 0]),
        113 => v.forest(|| ((t(),(t(),)),(t(),t()),(t(),),), &[0, 1, 0, 1, 0]),
        114 => v.forest(|| ((t(),t()),(t(),t(),t()),), &[0, 1, 0, 1, 1]),
        115 => v.forest(|| ((t(),(t(),)),(t(),(t(),),(t(),)),), &[0, 1, 0, 1, 1]),
        116 => v.forest(|| ((t(),(t(),)),(t(),t(),(t(),)),), &[0, 1, 0, 1, 1]),
        117 => v.forest(|| ((t(),t()),(t(),(t(),t())),), &[0, 1, 0, 1, 2]),
        118 => v.forest(|| ((t(),(t(),)),(t(),(t(),(t(),))),), &[0, 1, 0, 1, 2]),
        119 => v.forest(|| ((t(),(t(),)),(t(),(t(),t())),), &[0, 1, 0, 1, 2]),
        120 => v.forest(|| ((t(),t(),t()),t(),t(),), &[0, 1, 1, 0, 0]),
        121 => v.forest(|| ((t(),(t(),),(t(),)),(t(),),(t(),),), &[0, 1, 1, 0, 0]),
        122 => v.forest(|| ((t(),(t(),),t()),(t(),),t(),), &[0, 1, 1, 0, 0]),
        123 => v.forest(|| ((t(),t(),t()),(t(),t()),), &[0, 1, 1, 0, 1]),
        124 => v.forest(|| ((t(),(t(),),(t(),)),(t(),(t(),)),), &[0, 1, 1, 0, 1]),
        125 => v.forest(|| ((t(),(t(),),t()),(t(),(t(),)),), &[0, 1, 1, 0, 1]),
        126 => v.forest(|| ((t(),(t(),t())),t(),t(),), &[0, 1, 2, 0, 0]),
        127 => v.forest(|| ((t(),(t(),(t(),))),(t(),),(t(),),), &[0, 1, 2, 0, 0]),
        128 => v.forest(|| ((t(),(t(),(t(),))),t(),(t(),),), &[0, 1, 2, 0, 0]),
        129 => v.forest(|| ((t(),(t(),t())),(t(),t()),), &[0, 1, 2, 0, 1]),
        130 => v.forest(|| ((t(),(t(),(t(),))),(t(),(t(),)),), &[0, 1, 2, 0, 1]),
        131 => v.forest(|| ((t(),(t(),(t(),))),(t(),t()),), &[0, 1, 2, 0, 1]),
        132 => v.forest(|| ((t(),t(),t(),t()),t(),), &[0, 1, 1, 1, 0]),
        133 => v.forest(|| ((t(),(t(),),(t(),),(t(),)),(t(),),), &[0, 1, 1, 1, 0]),
        134 => v.forest(|| ((t(),(t(),),t(),(t(),)),t(),), &[0, 1, 1, 1, 0]),
        135 => v.forest(|| ((t(),t(),(t(),t())),t(),), &[0, 1, 1, 2, 0]),
        136 => v.forest(|| ((t(),(t(),),(t(),(t(),))),(t(),),), &[0, 1, 1, 2, 0]),
        137 => v.forest(|| ((t(),(t(),),(t(),t())),(t(),),), &[0, 1, 1, 2, 0]),
        138 => v.forest(|| ((t(),(t(),t()),t()),t(),), &[0, 1, 2, 1, 0]),
        139 => v.forest(|| ((t(),(t(),(t(),)),(t(),)),(t(),),), &[0, 1, 2, 1, 0]),
        140 => v.forest(|| ((t(),(t(),(t(),)),t()),(t(),),), &[0, 1, 2, 1, 0]),
        141 => v.forest(|| ((t(),(t(),t(),t())),t(),), &[0, 1, 2, 2, 0]),
        142 => v.forest(|| ((t(),(t(),(t(),),(t(),))),(t(),),), &[0, 1, 2, 2, 0]),
        143 => v.forest(|| ((t(),(t(),(t(),),t())),(t(),),), &[0, 1, 2, 2, 0]),
        144 => v.forest(|| ((t(),(t(),(t(),t()))),t(),), &[0, 1, 2, 3, 0]),
        145 => v.forest(|| ((t(),(t(),(t(),(t(),)))),(t(),),), &[0, 1, 2, 3, 0]),
        146 => v.forest(|| ((t(),(t(),(t(),(t(),)))),t(),), &[0, 1, 2, 3, 0]),
        147 => v.forest(|| ((t(),t(),t(),t(),t()),), &[0, 1, 1, 1, 1]),
        148 => v.forest(|| ((t(),(t(),),(t(),),(t(),),(t(),)),), &[0, 1, 1, 1, 1]),
        149 => v.forest(|| ((t(),(t(),),t(),(t(),),t()),), &[0, 1, 1, 1, 1]),
        150 => v.forest(|| ((t(),t(),t(),(t(),t())),), &[0, 1, 1, 1, 2]),
        151 => v.forest(|| ((t(),(t(),),(t(),),(t(),(t(),))),), &[0, 1, 1, 1, 2]),
        152 => v.forest(|| ((t(),(t(),),t(),(t(),(t(),))),), &[0, 1, 1, 1, 2]),
        153 => v.forest(|| ((t(),t(),(t(),t()),t()),), &[0, 1, 1, 2, 1]),
        154 => v.forest(|| ((t(),(t(),),(t(),(t(),)),(t(),)),), &[0, 1, 1, 2, 1]),
        155 => v.forest(|| ((t(),(t(),),(t(),t()),(t(),)),), &[0, 1, 1, 2, 1]),
        156 => v.forest(|| ((t(),t(),(t(),t(),t())),), &[0, 1, 1, 2, 2]),
        157 => v.forest(|| ((t(),(t(),),(t(),(t(),),(t(),))),), &[0, 1, 1, 2, 2]),
        158 => v.forest(|| ((t(),(t(),),(t(),t(),(t(),))),), &[0, 1, 1, 2, 2]),
        159 => v.forest(|| ((t(),t(),(t(),(t(),t()))),), &[0, 1, 1, 2, 3]),
        160 => v.forest(|| ((t(),(t(),),(t(),(t(),(t(),)))),), &[0, 1, 1, 2, 3]),
        161 => v.forest(|| ((t(),(t(),),(t(),(t(),t()))),), &[0, 1, 1, 2, 3]),
        162 => v.forest(|| ((t(),(t(),t()),t(),t()),), &[0, 1, 2, 1, 1]),
        163 => v.forest(|| ((t(),(t(),(t(),)),(t(),),(t(),)),), &[0, 1, 2, 1, 1]),
        164 => v.forest(|| ((t(),(t(),(t(),)),t(),(t(),)),), &[0, 1, 2, 1, 1]),
        165 => v.forest(|| ((t(),(t(),t()),(t(),t())),), &[0, 1, 2, 1, 2]),
        166 => v.forest(|| ((t(),(t(),(t(),)),(t(),(t(),))),), &[0, 1, 2, 1, 2]),
        167 => v.forest(|| ((t(),(t(),(t(),)),(t(),t())),), &[0, 1, 2, 1, 2]),
        168 => v.forest(|| ((t(),(t(),t(),t()),t()),), &[0, 1, 2, 2, 1]),
        169 => v.forest(|| ((t(),(t(),(t(),),(t(),)),(t(),)),), &[0, 1, 2, 2, 1]),
        170 => v.forest(|| ((t(),(t(),(t(),),t()),(t(),)),), &[0, 1, 2, 2, 1]),
        171 => v.forest(|| ((t(),(t(),(t(),t())),t()),), &[0, 1, 2, 3, 1]),
        172 => v.forest(|| ((t(),(t(),(t(),(t(),))),(t(),)),), &[0, 1, 2, 3, 1]),
        173 => v.forest(|| ((t(),(t(),(t(),(t(),))),t()),), &[0, 1, 2, 3, 1]),
        174 => v.forest(|| ((t(),(t(),t(),t(),t())),), &[0, 1, 2, 2, 2]),
        175 => v.forest(|| ((t(),(t(),(t(),),(t(),),(t(),))),), &[0, 1, 2, 2, 2]),
        176 => v.forest(|| ((t(),(t(),(t(),),t(),(t(),))),), &[0, 1, 2, 2, 2]),
        177 => v.forest(|| ((t(),(t(),t(),(t(),t()))),), &[0, 1, 2, 2, 3]),
        178 => v.forest(|| ((t(),(t(),(t(),),(t(),(t(),)))),), &[0, 1, 2, 2, 3]),
        179 => v.forest(|| ((t(),(t(),(t(),),(t(),t()))),), &[0, 1, 2, 2, 3]),
        180 => v.forest(|| ((t(),(t(),(t(),t()),t())),), &[0, 1, 2, 3, 2]),
        181 => v.forest(|| ((t(),(t(),(t(),(t(),)),(t(),))),), &[0, 1, 2, 3, 2]),
        182 => v.forest(|| ((t(),(t(),(t(),(t(),)),t())),), &[0, 1, 2, 3, 2]),
        183 => v.forest(|| ((t(),(t(),(t(),t(),t()))),), &[0, 1, 2, 3, 3]),
        184 => v.forest(|| ((t(),(t(),(t(),(t(),),(t(),)))),), &[0, 1, 2, 3, 3]),
        185 => v.forest(|| ((t(),(t(),(t(),(t(),),t()))),), &[0, 1, 2, 3, 3]),
        186 => v.forest(|| ((t(),(t(),(t(),(t(),t())))),), &[0, 1, 2, 3, 4]),
        187 => v.forest(|| ((t(),(t(),(t(),(t(),(t(),))))),), &[0, 1, 2, 3, 4]),
        188 => v.forest(|| (t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0]),
        189 => v.forest(|| (t(),t(),t(),t(),(t(),t()),), &[0, 0, 0, 0, 0, 1]),
        190 => v.forest(|| (t(),t(),t(),(t(),t()),t(),), &[0, 0, 0, 0, 1, 0]),
        191 => v.forest(|| (t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 1, 1]),
        192 => v.forest(|| (t(),t(),t(),(t(),(t(),t())),), &[0, 0, 0, 0, 1, 2]),
        193 => v.forest(|| (t(),t(),(t(),t()),t(),t(),), &[0, 0, 0, 1, 0, 0]),
        194 => v.forest(|| (t(),t(),(t(),t()),(t(),t()),), &[0, 0, 0, 1, 0, 1]),
        195 => v.forest(|| (t(),t(),(t(),t(),t()),t(),), &[0, 0, 0, 1, 1, 0]),
        196 => v.forest(|| (t(),t(),(t(),(t(),t())),t(),), &[0, 0, 0, 1, 2, 0]),
        197 => v.forest(|| (t(),t(),(t(),t(),t(),t()),), &[0, 0, 0, 1, 1, 1]),
        198 => v.forest(|| (t(),t(),(t(),t(),(t(),t())),), &[0, 0, 0, 1, 1, 2]),
        199 => v.forest(|| (t(),t(),(t(),(t(),t()),t()),), &[0, 0, 0, 1, 2, 1]),
        200 => v.forest(|| (t(),t(),(t(),(t(),t(),t())),), &[0, 0, 0, 1, 2, 2]),
        201 => v.forest(|| (t(),t(),(t(),(t(),(t(),t()))),), &[0, 0, 0, 1, 2, 3]),
        202 => v.forest(|| (t(),(t(),t()),t(),t(),t(),), &[0, 0, 1, 0, 0, 0]),
        203 => v.forest(|| (t(),(t(),t()),t(),(t(),t()),), &[0, 0, 1, 0, 0, 1]),
        204 => v.forest(|| (t(),(t(),t()),(t(),t()),t(),), &[0, 0, 1, 0, 1, 0]),
        205 => v.forest(|| (t(),(t(),t()),(t(),t(),t()),), &[0, 0, 1, 0, 1, 1]),
        206 => v.forest(|| (t(),(t(),t()),(t(),(t(),t())),), &[0, 0, 1, 0, 1, 2]),
        207 => v.forest(|| (t(),(t(),t(),t()),t(),t(),), &[0, 0, 1, 1, 0, 0]),
        208 => v.forest(|| (t(),(t(),t(),t()),(t(),t()),), &[0, 0, 1, 1, 0, 1]),
        209 => v.forest(|| (t(),(t(),(t(),t())),t(),t(),), &[0, 0, 1, 2, 0, 0]),
        210 => v.forest(|| (t(),(t(),(t(),t())),(t(),t()),), &[0, 0, 1, 2, 0, 1]),
        211 => v.forest(|| (t(),(t(),t(),t(),t()),t(),), &[0, 0, 1, 1, 1, 0]),
        212 => v.forest(|| (t(),(t(),t(),(t(),t())),t(),), &[0, 0, 1, 1, 2, 0]),
        213 => v.forest(|| (t(),(t(),(t(),t()),t()),t(),), &[0, 0, 1, 2, 1, 0]),
        214 => v.forest(|| (t(),(t(),(t(),t(),t())),t(),), &[0, 0, 1, 2, 2, 0]),
        215 => v.forest(|| (t(),(t(),(t(),(t(),t()))),t(),), &[0, 0, 1, 2, 3, 0]),
        216 => v.forest(|| (t(),(t(),t(),t(),t(),t()),), &[0, 0, 1, 1, 1, 1]),
        217 => v.forest(|| (t(),(t(),t(),t(),(t(),t())),), &[0, 0, 1, 1, 1, 2]),
        218 => v.forest(|| (t(),(t(),t(),(t(),t()),t()),), &[0, 0, 1, 1, 2, 1]),
        219 => v.forest(|| (t(),(t(),t(),(t(),t(),t())),), &[0, 0, 1, 1, 2, 2]),
        220 => v.forest(|| (t(),(t(),t(),(t(),(t(),t()))),), &[0, 0, 1, 1, 2, 3]),
        221 => v.forest(|| (t(),(t(),(t(),t()),t(),t()),), &[0, 0, 1, 2, 1, 1]),
        222 => v.forest(|| (t(),(t(),(t(),t()),(t(),t())),), &[0, 0, 1, 2, 1, 2]),
        223 => v.forest(|| (t(),(t(),(t(),t(),t()),t()),), &[0, 0, 1, 2, 2, 1]),
        224 => v.forest(|| (t(),(t(),(t(),(t(),t())),t()),), &[0, 0, 1, 2, 3, 1]),
        225 => v.forest(|| (t(),(t(),(t(),t(),t(),t())),), &[0, 0, 1, 2, 2, 2]),
        226 => v.forest(|| (t(),(t(),(t(),t(),(t(),t()))),), &[0, 0, 1, 2, 2, 3]),
        227 => v.forest(|| (t(),(t(),(t(),(t(),t()),t())),), &[0, 0, 1, 2, 3, 2]),
        228 => v.forest(|| (t(),(t(),(t(),(t(),t(),t()))),), &[0, 0, 1, 2, 3, 3]),
        229 => v.forest(|| (t(),(t(),(t(),(t(),(t(),t())))),), &[0, 0, 1, 2, 3, 4]),
        230 => v.forest(|| ((t(),t()),t(),t(),t(),t(),), &[0, 1, 0, 0, 0, 0]),
        231 => v.forest(|| ((t(),t()),t(),t(),(t(),t()),), &[0, 1, 0, 0, 0, 1]),
        232 => v.forest(|| ((t(),t()),t(),(t(),t()),t(),), &[0, 1, 0, 0, 1, 0]),
        233 => v.forest(|| ((t(),t()),t(),(t(),t(),t()),), &[0, 1, 0, 0, 1, 1]),
        234 => v.forest(|| ((t(),t()),t(),(t(),(t(),t())),), &[0, 1, 0, 0, 1, 2]),
        235 => v.forest(|| ((t(),t()),(t(),t()),t(),t(),), &[0, 1, 0, 1, 0, 0]),
        236 => v.forest(|| ((t(),t()),(t(),t()),(t(),t()),), &[0, 1, 0, 1, 0, 1]),
        237 => v.forest(|| ((t(),t()),(t(),t(),t()),t(),), &[0, 1, 0, 1, 1, 0]),
        238 => v.forest(|| ((t(),t()),(t(),(t(),t())),t(),), &[0, 1, 0, 1, 2, 0]),
        239 => v.forest(|| ((t(),t()),(t(),t(),t(),t()),), &[0, 1, 0, 1, 1, 1]),
        240 => v.forest(|| ((t(),t()),(t(),t(),(t(),t())),), &[0, 1, 0, 1, 1, 2]),
        241 => v.forest(|| ((t(),t()),(t(),(t(),t()),t()),), &[0, 1, 0, 1, 2, 1]),
        242 => v.forest(|| ((t(),t()),(t(),(t(),t(),t())),), &[0, 1, 0, 1, 2, 2]),
        243 => v.forest(|| ((t(),t()),(t(),(t(),(t(),t()))),), &[0, 1, 0, 1, 2, 3]),
        244 => v.forest(|| ((t(),t(),t()),t(),t(),t(),), &[0, 1, 1, 0, 0, 0]),
        245 => v.forest(|| ((t(),t(),t()),t(),(t(),t()),), &[0, 1, 1, 0, 0, 1]),
        246 => v.forest(|| ((t(),t(),t()),(t(),t()),t(),), &[0, 1, 1, 0, 1, 0]),
        247 => v.forest(|| ((t(),t(),t()),(t(),t(),t()),), &[0, 1, 1, 0, 1, 1]),
        248 => v.forest(|| ((t(),t(),t()),(t(),(t(),t())),), &[0, 1, 1, 0, 1, 2]),
        249 => v.forest(|| ((t(),(t(),t())),t(),t(),t(),), &[0, 1, 2, 0, 0, 0]),
        250 => v.forest(|| ((t(),(t(),t())),t(),(t(),t()),), &[0, 1, 2, 0, 0, 1]),
        251 => v.forest(|| ((t(),(t(),t())),(t(),t()),t(),), &[0, 1, 2, 0, 1, 0]),
        252 => v.forest(|| ((t(),(t(),t())),(t(),t(),t()),), &[0, 1, 2, 0, 1, 1]),
        253 => v.forest(|| ((t(),(t(),t())),(t(),(t(),t())),), &[0, 1, 2, 0, 1, 2]),
        254 => v.forest(|| ((t(),t(),t(),t()),t(),t(),), &[0, 1, 1, 1, 0, 0]),
        255 => v.forest(|| ((t(),t(),t(),t()),(t(),t()),), &[0, 1, 1, 1, 0, 1]),
        256 => v.forest(|| ((t(),t(),(t(),t())),t(),t(),), &[0, 1, 1, 2, 0, 0]),
        257 => v.forest(|| ((t(),t(),(t(),t())),(t(),t()),), &[0, 1, 1, 2, 0, 1]),
        258 => v.forest(|| ((t(),(t(),t()),t()),t(),t(),), &[0, 1, 2, 1, 0, 0]),
        259 => v.forest(|| ((t(),(t(),t()),t()),(t(),t()),), &[0, 1, 2, 1, 0, 1]),
        260 => v.forest(|| ((t(),(t(),t(),t())),t(),t(),), &[0, 1, 2, 2, 0, 0]),
        261 => v.forest(|| ((t(),(t(),t(),t())),(t(),t()),), &[0, 1, 2, 2, 0, 1]),
        262 => v.forest(|| ((t(),(t(),(t(),t()))),t(),t(),), &[0, 1, 2, 3, 0, 0]),
        263 => v.forest(|| ((t(),(t(),(t(),t()))),(t(),t()),), &[0, 1, 2, 3, 0, 1]),
        264 => v.forest(|| ((t(),t(),t(),t(),t()),t(),), &[0, 1, 1, 1, 1, 0]),
        265 => v.forest(|| ((t(),t(),t(),(t(),t())),t(),), &[0, 1, 1, 1, 2, 0]),
        266 => v.forest(|| ((t(),t(),(t(),t()),t()),t(),), &[0, 1, 1, 2, 1, 0]),
        267 => v.forest(|| ((t(),t(),(t(),t(),t())),t(),), &[0, 1, 1, 2, 2, 0]),
        268 => v.forest(|| ((t(),t(),(t(),(t(),t()))),t(),), &[0, 1, 1, 2, 3, 0]),
        269 => v.forest(|| ((t(),(t(),t()),t(),t()),t(),), &[0, 1, 2, 1, 1, 0]),
        270 => v.forest(|| ((t(),(t(),t()),(t(),t())),t(),), &[0, 1, 2, 1, 2, 0]),
        271 => v.forest(|| ((t(),(t(),t(),t()),t()),t(),), &[0, 1, 2, 2, 1, 0]),
        272 => v.forest(|| ((t(),(t(),(t(),t())),t()),t(),), &[0, 1, 2, 3, 1, 0]),
        273 => v.forest(|| ((t(),(t(),t(),t(),t())),t(),), &[0, 1, 2, 2, 2, 0]),
        274 => v.forest(|| ((t(),(t(),t(),(t(),t()))),t(),), &[0, 1, 2, 2, 3, 0]),
        275 => v.forest(|| ((t(),(t(),(t(),t()),t())),t(),), &[0, 1, 2, 3, 2, 0]),
        276 => v.forest(|| ((t(),(t(),(t(),t(),t()))),t(),), &[0, 1, 2, 3, 3, 0]),
        277 => v.forest(|| ((t(),(t(),(t(),(t(),t())))),t(),), &[0, 1, 2, 3, 4, 0]),
        278 => v.forest(|| ((t(),t(),t(),t(),t(),t()),), &[0, 1, 1, 1, 1, 1]),
        279 => v.forest(|| ((t(),t(),t(),t(),(t(),t())),), &[0, 1, 1, 1, 1, 2]),
        280 => v.forest(|| ((t(),t(),t(),(t(),t()),t()),), &[0, 1, 1, 1, 2, 1]),
        281 => v.forest(|| ((t(),t(),t(),(t(),t(),t())),), &[0, 1, 1, 1, 2, 2]),
        282 => v.forest(|| ((t(),t(),t(),(t(),(t(),t()))),), &[0, 1, 1, 1, 2, 3]),
        283 => v.forest(|| ((t(),t(),(t(),t()),t(),t()),), &[0, 1, 1, 2, 1, 1]),
        284 => v.forest(|| ((t(),t(),(t(),t()),(t(),t())),), &[0, 1, 1, 2, 1, 2]),
        285 => v.forest(|| ((t(),t(),(t(),t(),t()),t()),), &[0, 1, 1, 2, 2, 1]),
        286 => v.forest(|| ((t(),t(),(t(),(t(),t())),t()),), &[0, 1, 1, 2, 3, 1]),
        287 => v.forest(|| ((t(),t(),(t(),t(),t(),t())),), &[0, 1, 1, 2, 2, 2]),
        288 => v.forest(|| ((t(),t(),(t(),t(),(t(),t()))),), &[0, 1, 1, 2, 2, 3]),
        289 => v.forest(|| ((t(),t(),(t(),(t(),t()),t())),), &[0, 1, 1, 2, 3, 2]),
        290 => v.forest(|| ((t(),t(),(t(),(t(),t(),t()))),), &[0, 1, 1, 2, 3, 3]),
        291 => v.forest(|| ((t(),t(),(t(),(t(),(t(),t())))),), &[0, 1, 1, 2, 3, 4]),
        292 => v.forest(|| ((t(),(t(),t()),t(),t(),t()),), &[0, 1, 2, 1, 1, 1]),
        293 => v.forest(|| ((t(),(t(),t()),t(),(t(),t())),), &[0, 1, 2, 1, 1, 2]),
        294 => v.forest(|| ((t(),(t(),t()),(t(),t()),t()),), &[0, 1, 2, 1, 2, 1]),
        295 => v.forest(|| ((t(),(t(),t()),(t(),t(),t())),), &[0, 1, 2, 1, 2, 2]),
        296 => v.forest(|| ((t(),(t(),t()),(t(),(t(),t()))),), &[0, 1, 2, 1, 2, 3]),
        297 => v.forest(|| ((t(),(t(),t(),t()),t(),t()),), &[0, 1, 2, 2, 1, 1]),
        298 => v.forest(|| ((t(),(t(),t(),t()),(t(),t())),), &[0, 1, 2, 2, 1, 2]),
        299 => v.forest(|| ((t(),(t(),(t(),t())),t(),t()),), &[0, 1, 2, 3, 1, 1]),
        300 => v.forest(|| ((t(),(t(),(t(),t())),(t(),t())),), &[0, 1, 2, 3, 1, 2]),
        301 => v.forest(|| ((t(),(t(),t(),t(),t()),t()),), &[0, 1, 2, 2, 2, 1]),
        302 => v.forest(|| ((t(),(t(),t(),(t(),t())),t()),), &[0, 1, 2, 2, 3, 1]),
        303 => v.forest(|| ((t(),(t(),(t(),t()),t()),t()),), &[0, 1, 2, 3, 2, 1]),
        304 => v.forest(|| ((t(),(t(),(t(),t(),t())),t()),), &[0, 1, 2, 3, 3, 1]),
        305 => v.forest(|| ((t(),(t(),(t(),(t(),t()))),t()),), &[0, 1, 2, 3, 4, 1]),
        306 => v.forest(|| ((t(),(t(),t(),t(),t(),t())),), &[0, 1, 2, 2, 2, 2]),
        307 => v.forest(|| ((t(),(t(),t(),t(),(t(),t()))),), &[0, 1, 2, 2, 2, 3]),
        308 => v.forest(|| ((t(),(t(),t(),(t(),t()),t())),), &[0, 1, 2, 2, 3, 2]),
        309 => v.forest(|| ((t(),(t(),t(),(t(),t(),t()))),), &[0, 1, 2, 2, 3, 3]),
        310 => v.forest(|| ((t(),(t(),t(),(t(),(t(),t())))),), &[0, 1, 2, 2, 3, 4]),
        311 => v.forest(|| ((t(),(t(),(t(),t()),t(),t())),), &[0, 1, 2, 3, 2, 2]),
        312 => v.forest(|| ((t(),(t(),(t(),t()),(t(),t()))),), &[0, 1, 2, 3, 2, 3]),
        313 => v.forest(|| ((t(),(t(),(t(),t(),t()),t())),), &[0, 1, 2, 3, 3, 2]),
        314 => v.forest(|| ((t(),(t(),(t(),(t(),t())),t())),), &[0, 1, 2, 3, 4, 2]),
        315 => v.forest(|| ((t(),(t(),(t(),t(),t(),t()))),), &[0, 1, 2, 3, 3, 3]),
        316 => v.forest(|| ((t(),(t(),(t(),t(),(t(),t())))),), &[0, 1, 2, 3, 3, 4]),
        317 => v.forest(|| ((t(),(t(),(t(),(t(),t()),t()))),), &[0, 1, 2, 3, 4, 3]),
        318 => v.forest(|| ((t(),(t(),(t(),(t(),t(),t())))),), &[0, 1, 2, 3, 4, 4]),
        319 => v.forest(|| ((t(),(t(),(t(),(t(),(t(),t()))))),), &[0, 1, 2, 3, 4, 5]),
        320 => v.forest(|| ((t(),(t(),(t(),(t(),(t(),(t(),(t(),(t(),(t(),(t(),)))))))))),), &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9]),
        321 => v.forest(|| ((t(),(t(),(t(),(t(),(t(),(t(),(t(),(t(),(t(),(t(),(t(),(t(),(t(),(t(),(t(),(t(),(t(),(t(),)))))))))))))))))),), &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17]),
        322 => v.forest(|| (t(),(t(),t(),(t(),t(),(t(),t(),(t(),t(),(t(),t(),(t(),t(),(t(),t(),t()))))))),t()), &[0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 0]),
        _ => v.forest(|| (t(),(t(),(t(),(t(),(t(),(t(),(t(),(t(),t(),t()),t()),t()),t()),t()),t()),t()),t()), &[0, 0, 1, 2, 3, 4, 5, 6, 7, 7, 6, 5, 4, 3, 2, 1, 0]),
    }
}
pub const FOREST_ARITY: usize = 110;
pub fn forest_arity<V: Kind>(k: usize, v: &V) {
    match k {
        0 => v.forest(|| ((t(),t(),t()),t(),t(),t(),t(),), &[0, 1, 1, 0, 0, 0, 0]),
        1 => v.forest(|| (t(),t(),(t(),t(),t()),t(),t(),), &[0, 0, 0, 1, 1, 0, 0]),
        2 => v.forest(|| (t(),t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 0, 1, 1]),
        3 => v.forest(|| ((t(),t(),t()),t(),t(),t(),t(),t(),), &[0, 1, 1, 0, 0, 0, 0, 0]),
        4 => v.forest(|| (t(),t(),t(),(t(),t(),t()),t(),t(),), &[0, 0, 0, 0, 1, 1, 0, 0]),
        5 => v.forest(|| (t(),t(),t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 0, 0, 1, 1]),
        6 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0]),
        7 => v.forest(|| ((t(),t(),t()),t(),t(),t(),t(),t(),t(),), &[0, 1, 1, 0, 0, 0, 0, 0, 0]),
        8 => v.forest(|| (t(),t(),t(),(t(),t(),t()),t(),t(),t(),), &[0, 0, 0, 0, 1, 1, 0, 0, 0]),
        9 => v.forest(|| (t(),t(),t(),t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 0, 0, 0, 1, 1]),
        10 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0]),
        11 => v.forest(|| ((t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),), &[0, 1, 1, 0, 0, 0, 0, 0, 0, 0]),
        12 => v.forest(|| (t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),), &[0, 0, 0, 0, 0, 1, 1, 0, 0, 0]),
        13 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 0, 0, 0, 0, 1, 1]),
        14 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0]),
        15 => v.forest(|| ((t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0]),
        16 => v.forest(|| (t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0]),
        17 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1]),
        18 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        19 => v.forest(|| ((t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        20 => v.forest(|| (t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0]),
        21 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1]),
        22 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        23 => v.forest(|| ((t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        24 => v.forest(|| (t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0]),
        25 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1]),
        26 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        27 => v.forest(|| ((t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        28 => v.forest(|| (t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0]),
        29 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1]),
        30 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        31 => v.forest(|| ((t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        32 => v.forest(|| (t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0]),
        33 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1]),
        34 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        35 => v.forest(|| ((t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        36 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0]),
        37 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1]),
        38 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        39 => v.forest(|| ((t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        40 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0]),
        41 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1]),
        42 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        43 => v.forest(|| ((t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        44 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0]),
        45 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1]),
        46 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        47 => v.forest(|| ((t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        48 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0]),
        49 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1]),
        50 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        51 => v.forest(|| ((t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        52 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0]),
        53 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1]),
        54 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        55 => v.forest(|| ((t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        56 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        57 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1]),
        58 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        59 => v.forest(|| ((t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        60 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        61 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1]),
        62 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        63 => v.forest(|| ((t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        64 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        65 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1]),
        66 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        67 => v.forest(|| ((t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        68 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        69 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1]),
        70 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        71 => v.forest(|| ((t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        72 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        73 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1]),
        74 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        75 => v.forest(|| ((t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        76 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        77 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1]),
        78 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        79 => v.forest(|| ((t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        80 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        81 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1]),
        82 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        83 => v.forest(|| ((t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        84 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        85 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1]),
        86 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        87 => v.forest(|| ((t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        88 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        89 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1]),
        90 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        91 => v.forest(|| ((t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        92 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        93 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1]),
        94 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        95 => v.forest(|| ((t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        96 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        97 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1]),
        98 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        99 => v.forest(|| ((t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        100 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        101 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1]),
        102 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        103 => v.forest(|| ((t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        104 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        105 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1]),
        106 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        107 => v.forest(|| ((t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        108 => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]),
        _ => v.forest(|| (t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),(t(),t(),t()),), &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1]),
    }
}
pub const TREE_BIG: usize = 4;
pub fn tree_big<V: Kind>(k: usize, v: &V) {
    match k {
        0 => v.tree(|| (t(),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t())), &[0, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2]),
        1 => v.tree(|| (t(),t(),(t(),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t())),t()), &[0, 1, 1, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 1]),
        2 => v.tree(|| (t(),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),t()),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t())),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t())), &[0, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 3, 4, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 4, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 4, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2]),
        _ => v.tree(|| (t(),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),t())), &[0, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2]),
    }
}
pub const FOREST_BIG: usize = 4;
pub fn forest_big<V: Kind>(k: usize, v: &V) {
    match k {
        0 => v.forest(|| ((t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
        1 => v.forest(|| (t(),(t(),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t())),t(),), &[0, 0, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 0]),
        2 => v.forest(|| ((t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),t()),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t())),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),(t(),t()),), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 3, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 3, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 3, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1]),
        _ => v.forest(|| ((t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),(t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t(),t()),t()),), &[0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1]),
    }
}
