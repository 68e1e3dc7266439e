//! Data copied from the published H3 grid definition (as in the pinned tree):
//! face centres, the azimuth of each face's i axis, and where each base cell sits.
//! Generated once; see DESIGN.md. No neighbour, rotation or overage table is copied.

pub const FACE_CENTER: [(f64, f64); 20] = [
    (0.803582649718989942, 1.248397419617396099),
    (1.307747883455638156, 2.536945009877921159),
    (1.054751253523952054, -1.347517358900396623),
    (0.600191595538186799, -0.450603909469755746),
    (0.491715428198773866, 0.401988202911306943),
    (0.172745327415618701, 1.678146885280433686),
    (0.605929321571350690, 2.953923329812411617),
    (0.427370518328979641, -1.888876200336285401),
    (-0.079066118549212831, -0.733429513380867741),
    (-0.230961644455383637, 0.506495587332349035),
    (0.079066118549212831, 2.408163140208925497),
    (0.230961644455383637, -2.635097066257444203),
    (-0.172745327415618701, -1.463445768309359553),
    (-0.605929321571350690, -0.187669323777381622),
    (-0.427370518328979641, 1.252716453253507838),
    (-0.600191595538186799, 2.690988744120037492),
    (-0.491715428198773866, -2.739604450678486295),
    (-0.803582649718989942, -1.893195233972397139),
    (-1.307747883455638156, -0.604647643711872080),
    (-1.054751253523952054, 1.794075294689396615),
];

pub const FACE_AZ: [f64; 20] = [
    5.619958268523939882,
    5.760339081714187279,
    0.780213654393430055,
    0.430469363979999913,
    6.130269123335111400,
    2.692877706530642877,
    2.982963003477243874,
    3.532912002790141181,
    3.494305004259568154,
    3.003214169499538391,
    5.930472956509811562,
    0.138378484090254847,
    0.448714947059150361,
    0.158629650112549365,
    5.891865957979238535,
    2.711123289609793325,
    3.294508837434268316,
    3.804819692245439833,
    3.664438879055192436,
    2.361378999196363184,
];

/// (home face, i, j, k, is pentagon)
pub const BASE: [(u8, u8, u8, u8, u8); 122] = [
    (1, 1, 0, 0, 0),
    (2, 1, 1, 0, 0),
    (1, 0, 0, 0, 0),
    (2, 1, 0, 0, 0),
    (0, 2, 0, 0, 1),
    (1, 1, 1, 0, 0),
    (1, 0, 0, 1, 0),
    (2, 0, 0, 0, 0),
    (0, 1, 0, 0, 0),
    (2, 0, 1, 0, 0),
    (1, 0, 1, 0, 0),
    (1, 0, 1, 1, 0),
    (3, 1, 0, 0, 0),
    (3, 1, 1, 0, 0),
    (11, 2, 0, 0, 1),
    (4, 1, 0, 0, 0),
    (0, 0, 0, 0, 0),
    (6, 0, 1, 0, 0),
    (0, 0, 0, 1, 0),
    (2, 0, 1, 1, 0),
    (7, 0, 0, 1, 0),
    (2, 0, 0, 1, 0),
    (0, 1, 1, 0, 0),
    (6, 0, 0, 1, 0),
    (10, 2, 0, 0, 1),
    (6, 0, 0, 0, 0),
    (3, 0, 0, 0, 0),
    (11, 1, 0, 0, 0),
    (4, 1, 1, 0, 0),
    (3, 0, 1, 0, 0),
    (0, 0, 1, 1, 0),
    (4, 0, 0, 0, 0),
    (5, 0, 1, 0, 0),
    (0, 0, 1, 0, 0),
    (7, 0, 1, 0, 0),
    (11, 1, 1, 0, 0),
    (7, 0, 0, 0, 0),
    (10, 1, 0, 0, 0),
    (12, 2, 0, 0, 1),
    (6, 1, 0, 1, 0),
    (7, 1, 0, 1, 0),
    (4, 0, 0, 1, 0),
    (3, 0, 0, 1, 0),
    (3, 0, 1, 1, 0),
    (4, 0, 1, 0, 0),
    (6, 1, 0, 0, 0),
    (11, 0, 0, 0, 0),
    (8, 0, 0, 1, 0),
    (5, 0, 0, 1, 0),
    (14, 2, 0, 0, 1),
    (5, 0, 0, 0, 0),
    (12, 1, 0, 0, 0),
    (10, 1, 1, 0, 0),
    (4, 0, 1, 1, 0),
    (12, 1, 1, 0, 0),
    (7, 1, 0, 0, 0),
    (11, 0, 1, 0, 0),
    (10, 0, 0, 0, 0),
    (13, 2, 0, 0, 1),
    (10, 0, 0, 1, 0),
    (11, 0, 0, 1, 0),
    (9, 0, 1, 0, 0),
    (8, 0, 1, 0, 0),
    (6, 2, 0, 0, 1),
    (8, 0, 0, 0, 0),
    (9, 0, 0, 1, 0),
    (14, 1, 0, 0, 0),
    (5, 1, 0, 1, 0),
    (16, 0, 1, 1, 0),
    (8, 1, 0, 1, 0),
    (5, 1, 0, 0, 0),
    (12, 0, 0, 0, 0),
    (7, 2, 0, 0, 1),
    (12, 0, 1, 0, 0),
    (10, 0, 1, 0, 0),
    (9, 0, 0, 0, 0),
    (13, 1, 0, 0, 0),
    (16, 0, 0, 1, 0),
    (15, 0, 1, 1, 0),
    (15, 0, 1, 0, 0),
    (16, 0, 1, 0, 0),
    (14, 1, 1, 0, 0),
    (13, 1, 1, 0, 0),
    (5, 2, 0, 0, 1),
    (8, 1, 0, 0, 0),
    (14, 0, 0, 0, 0),
    (9, 1, 0, 1, 0),
    (14, 0, 0, 1, 0),
    (17, 0, 0, 1, 0),
    (12, 0, 0, 1, 0),
    (16, 0, 0, 0, 0),
    (17, 0, 1, 1, 0),
    (15, 0, 0, 1, 0),
    (16, 1, 0, 1, 0),
    (9, 1, 0, 0, 0),
    (15, 0, 0, 0, 0),
    (13, 0, 0, 0, 0),
    (8, 2, 0, 0, 1),
    (13, 0, 1, 0, 0),
    (17, 1, 0, 1, 0),
    (19, 0, 1, 0, 0),
    (14, 0, 1, 0, 0),
    (19, 0, 1, 1, 0),
    (17, 0, 1, 0, 0),
    (13, 0, 0, 1, 0),
    (17, 0, 0, 0, 0),
    (16, 1, 0, 0, 0),
    (9, 2, 0, 0, 1),
    (15, 1, 0, 1, 0),
    (15, 1, 0, 0, 0),
    (18, 0, 1, 1, 0),
    (18, 0, 0, 1, 0),
    (19, 0, 0, 1, 0),
    (17, 1, 0, 0, 0),
    (19, 0, 0, 0, 0),
    (18, 0, 1, 0, 0),
    (18, 1, 0, 1, 0),
    (19, 2, 0, 0, 1),
    (19, 1, 0, 0, 0),
    (18, 0, 0, 0, 0),
    (19, 1, 0, 1, 0),
    (18, 1, 0, 0, 0),
];
