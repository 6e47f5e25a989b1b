use fixed_map::Key;
#[derive(Clone, Copy, PartialEq, Eq, Key)]
pub enum T { A, B }
#[derive(Clone, Copy, PartialEq, Eq, Key)]
pub enum S { A, B }
#[derive(Clone, Copy, PartialEq, Eq, Key)]
pub enum U1 { A }
#[derive(Clone, Copy, PartialEq, Eq, Key)]
pub enum U3 { A = 7, B = -1, C = 1 }
#[derive(Clone, Copy, PartialEq, Eq, Key)]
pub enum U9 { A, B, C, D, E, F, G, H, I }
#[derive(Clone, Copy, PartialEq, Eq, Key)]
#[key(bitset)]
pub enum B1 { A }
#[derive(Clone, Copy, PartialEq, Eq, Key)]
#[key(bitset)]
pub enum B3 { A = 2, B = 1, C = 0 }
#[derive(Clone, Copy, PartialEq, Eq, Key)]
#[key(bitset)]
pub enum B8 { A, B, C, D, E, F, G, H }
#[derive(Clone, Copy, PartialEq, Eq, Key)]
#[key(bitset)]
pub enum B9 { A, B, C, D, E, F, G, H, I }
#[derive(Clone, Copy, PartialEq, Eq, Key)]
#[key(bitset)]
pub enum B16 { A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P }
#[derive(Clone, Copy, PartialEq, Eq, Key)]
#[key(bitset)]
pub enum B17 { A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q }
#[derive(Clone, Copy, PartialEq, Eq, Key)]
#[key(bitset)]
pub enum B32 { A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V, W, X, Y, Z, AA, AB, AC, AD, AE, AF }
#[derive(Clone, Copy, PartialEq, Eq, Key)]
#[key(bitset)]
pub enum B33 { A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V, W, X, Y, Z, AA, AB, AC, AD, AE, AF, AG }
#[derive(Clone, Copy, PartialEq, Eq, Key)]
#[key(bitset)]
pub enum B64 { A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V, W, X, Y, Z, AA, AB, AC, AD, AE, AF, AG, AH, AI, AJ, AK, AL, AM, AN, AO, AP, AQ, AR, AS, AT, AU, AV, AW, AX, AY, AZ, BA, BB, BC, BD, BE, BF, BG, BH, BI, BJ, BK, BL }
#[derive(Clone, Copy, PartialEq, Eq, Key)]
#[key(bitset)]
pub enum B65 { A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V, W, X, Y, Z, AA, AB, AC, AD, AE, AF, AG, AH, AI, AJ, AK, AL, AM, AN, AO, AP, AQ, AR, AS, AT, AU, AV, AW, AX, AY, AZ, BA, BB, BC, BD, BE, BF, BG, BH, BI, BJ, BK, BL, BM }
#[derive(Clone, Copy, PartialEq, Eq, Key)]
#[key(bitset)]
pub enum B128 { A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V, W, X, Y, Z, AA, AB, AC, AD, AE, AF, AG, AH, AI, AJ, AK, AL, AM, AN, AO, AP, AQ, AR, AS, AT, AU, AV, AW, AX, AY, AZ, BA, BB, BC, BD, BE, BF, BG, BH, BI, BJ, BK, BL, BM, BN, BO, BP, BQ, BR, BS, BT, BU, BV, BW, BX, BY, BZ, CA, CB, CC, CD, CE, CF, CG, CH, CI, CJ, CK, CL, CM, CN, CO, CP, CQ, CR, CS, CT, CU, CV, CW, CX, CY, CZ, DA, DB, DC, DD, DE, DF, DG, DH, DI, DJ, DK, DL, DM, DN, DO, DP, DQ, DR, DS, DT, DU, DV, DW, DX }
#[derive(Clone, Copy, PartialEq, Eq, Key)]
pub enum Mix { A, B(T), C(S), D }
#[derive(Clone, Copy, PartialEq, Eq, Key)]
pub enum Rev { A(S), B }
#[derive(Clone, Copy, PartialEq, Eq, Key)]
pub enum Only { A(T) }
#[derive(Clone, Copy, PartialEq, Eq, Key)]
pub enum Opt { A(Option<T>), B(bool) }
