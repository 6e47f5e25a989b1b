//! The key type shapes the contracts are discharged for, and the oracle for
//! their order: `nth(i)` is the i-th inhabitant in declaration order.

use core::fmt::Debug;
use fixed_map::Key;

pub trait Shape: Key + Copy + PartialEq + Eq + Debug {
    const N: usize;
    fn nth(i: usize) -> Self;
    /// The inverse of `nth`.
    fn index(self) -> usize;
}

impl Shape for () {
    const N: usize = 1;
    fn nth(_: usize) -> Self {}
    fn index(self) -> usize {
        0
    }
}

impl Shape for bool {
    const N: usize = 2;
    fn nth(i: usize) -> Self {
        i == 0
    }
    fn index(self) -> usize {
        !self as usize
    }
}

impl<T: Shape> Shape for Option<T> {
    const N: usize = T::N + 1;
    fn nth(i: usize) -> Self {
        if i < T::N {
            Some(T::nth(i))
        } else {
            None
        }
    }
    fn index(self) -> usize {
        match self {
            Some(k) => k.index(),
            None => T::N,
        }
    }
}

macro_rules! unit {
    ($(#[$m:meta])* $name:ident: $($v:ident)*) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
        $(#[$m])*
        pub enum $name { $($v,)* }

        impl Shape for $name {
            const N: usize = { let v: &[&str] = &[$(stringify!($v)),*]; v.len() };
            fn nth(i: usize) -> Self {
                $(if i == $name::$v as usize {
                    return $name::$v;
                })*
                unreachable!()
            }
            fn index(self) -> usize {
                self as usize
            }
        }
    };
}

macro_rules! composite {
    ($name:ident: $($v:ident $(($t:ty))?,)*) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
        pub enum $name { $($v $(($t))?,)* }

        impl Shape for $name {
            const N: usize = 0 $(+ composite!(@n $($t)?))*;
            fn nth(i: usize) -> Self {
                let base = 0;
                $(
                    let n = composite!(@n $($t)?);
                    if i < base + n {
                        return composite!(@nth $name $v $(($t))?, i - base);
                    }
                    let base = base + n;
                )*
                let _ = base;
                unreachable!()
            }
            fn index(self) -> usize {
                let base = 0;
                $(
                    composite!(@index self, base, $name $v $(($t))?);
                    let base = base + composite!(@n $($t)?);
                )*
                let _ = base;
                unreachable!()
            }
        }
    };
    (@n) => { 1 };
    (@n $t:ty) => { <$t as Shape>::N };
    (@index $k:ident, $base:ident, $name:ident $v:ident) => {
        if let $name::$v = $k {
            return $base;
        }
    };
    (@index $k:ident, $base:ident, $name:ident $v:ident ($t:ty)) => {
        if let $name::$v(k) = $k {
            return $base + <$t as Shape>::index(k);
        }
    };
    (@nth $name:ident $v:ident, $i:expr) => { $name::$v };
    (@nth $name:ident $v:ident ($t:ty), $i:expr) => { $name::$v(<$t as Shape>::nth($i)) };
}

/// Discriminants which are not positions: declaration order is what counts.
macro_rules! numbered {
    ($(#[$m:meta])* $name:ident: $($v:ident = $d:literal)*) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Key)]
        $(#[$m])*
        pub enum $name { $($v = $d,)* }

        impl Shape for $name {
            const N: usize = { let v: &[&str] = &[$(stringify!($v)),*]; v.len() };
            fn nth(i: usize) -> Self {
                let all = [$($name::$v),*];
                all[i]
            }
            fn index(self) -> usize {
                let mut n = 0;
                $(
                    if let $name::$v = self {
                        return n;
                    }
                    n += 1;
                )*
                n
            }
        }
    };
}

numbered!(U3: A = 7 B = -1 C = 1);
numbered!(#[key(bitset)] B3: A = 2 B = 1 C = 0);

unit!(U0:);
unit!(U1: A);
unit!(U2: A B);
unit!(U4: A B C D);
unit!(U5: A B C D E);
unit!(U9: A B C D E F G H I);
unit!(U17: A B C D E F G H I J K L M N O P Q);
unit!(U33: A B C D E F G H I J K L M N O P Q R S T U V W X Y Z Aa Bb Cc Dd Ee Ff Gg);

// More variants than a byte counts.
#[cfg(feature = "thorough")]
unit!(U260:
    V0 V1 V2 V3 V4 V5 V6 V7 V8 V9 V10 V11 V12 V13 V14 V15 V16 V17 V18 V19
    V20 V21 V22 V23 V24 V25 V26 V27 V28 V29 V30 V31 V32 V33 V34 V35 V36 V37 V38 V39
    V40 V41 V42 V43 V44 V45 V46 V47 V48 V49 V50 V51 V52 V53 V54 V55 V56 V57 V58 V59
    V60 V61 V62 V63 V64 V65 V66 V67 V68 V69 V70 V71 V72 V73 V74 V75 V76 V77 V78 V79
    V80 V81 V82 V83 V84 V85 V86 V87 V88 V89 V90 V91 V92 V93 V94 V95 V96 V97 V98 V99
    V100 V101 V102 V103 V104 V105 V106 V107 V108 V109 V110 V111 V112 V113 V114 V115 V116 V117 V118 V119
    V120 V121 V122 V123 V124 V125 V126 V127 V128 V129 V130 V131 V132 V133 V134 V135 V136 V137 V138 V139
    V140 V141 V142 V143 V144 V145 V146 V147 V148 V149 V150 V151 V152 V153 V154 V155 V156 V157 V158 V159
    V160 V161 V162 V163 V164 V165 V166 V167 V168 V169 V170 V171 V172 V173 V174 V175 V176 V177 V178 V179
    V180 V181 V182 V183 V184 V185 V186 V187 V188 V189 V190 V191 V192 V193 V194 V195 V196 V197 V198 V199
    V200 V201 V202 V203 V204 V205 V206 V207 V208 V209 V210 V211 V212 V213 V214 V215 V216 V217 V218 V219
    V220 V221 V222 V223 V224 V225 V226 V227 V228 V229 V230 V231 V232 V233 V234 V235 V236 V237 V238 V239
    V240 V241 V242 V243 V244 V245 V246 V247 V248 V249 V250 V251 V252 V253 V254 V255 V256 V257 V258 V259);

unit!(#[key(bitset)] B1: A);
unit!(#[key(bitset)] B2: A B);
unit!(#[key(bitset)] B4: A B C D);
unit!(#[key(bitset)] B8: A B C D E F G H);
unit!(#[key(bitset)] B9: A B C D E F G H I);
unit!(#[key(bitset)] B16: A B C D E F G H I J K L M N O P);
unit!(#[key(bitset)] B17: A B C D E F G H I J K L M N O P Q);
unit!(#[key(bitset)] B32: A B C D E F G H I J K L M N O P Q R S T U V W X Y Z Aa Bb Cc Dd Ee Ff);
unit!(#[key(bitset)] B33: A B C D E F G H I J K L M N O P Q R S T U V W X Y Z Aa Bb Cc Dd Ee Ff Gg);
unit!(#[key(bitset)] B64:
    A0 B0 C0 D0 E0 F0 G0 H0 A1 B1 C1 D1 E1 F1 G1 H1 A2 B2 C2 D2 E2 F2 G2 H2 A3 B3 C3 D3 E3 F3 G3 H3
    A4 B4 C4 D4 E4 F4 G4 H4 A5 B5 C5 D5 E5 F5 G5 H5 A6 B6 C6 D6 E6 F6 G6 H6 A7 B7 C7 D7 E7 F7 G7 H7);
unit!(#[key(bitset)] B65:
    A0 B0 C0 D0 E0 F0 G0 H0 A1 B1 C1 D1 E1 F1 G1 H1 A2 B2 C2 D2 E2 F2 G2 H2 A3 B3 C3 D3 E3 F3 G3 H3
    A4 B4 C4 D4 E4 F4 G4 H4 A5 B5 C5 D5 E5 F5 G5 H5 A6 B6 C6 D6 E6 F6 G6 H6 A7 B7 C7 D7 E7 F7 G7 H7
    Last);
unit!(#[key(bitset)] B128:
    A0 B0 C0 D0 E0 F0 G0 H0 A1 B1 C1 D1 E1 F1 G1 H1 A2 B2 C2 D2 E2 F2 G2 H2 A3 B3 C3 D3 E3 F3 G3 H3
    A4 B4 C4 D4 E4 F4 G4 H4 A5 B5 C5 D5 E5 F5 G5 H5 A6 B6 C6 D6 E6 F6 G6 H6 A7 B7 C7 D7 E7 F7 G7 H7
    I0 J0 K0 L0 M0 N0 O0 P0 I1 J1 K1 L1 M1 N1 O1 P1 I2 J2 K2 L2 M2 N2 O2 P2 I3 J3 K3 L3 M3 N3 O3 P3
    I4 J4 K4 L4 M4 N4 O4 P4 I5 J5 K5 L5 M5 N5 O5 P5 I6 J6 K6 L6 M6 N6 O6 P6 I7 J7 K7 L7 M7 N7 O7 P7);

composite!(Mid: A, B(bool), C,);
composite!(Opt: A(Option<bool>), B(()),);
composite!(Mix: A(U2), B, C(B2),);
composite!(Tiny: A(bool), B,);
composite!(Duo: A(U2), B,);
composite!(Inner: P, Q(bool),);
composite!(Outer: I(Inner), Z,);
composite!(Pair: P(bool), Q(bool),);
composite!(Unit: A(()), B(()), C,);
composite!(Long: A, B(()), C, D, E(bool), F,);

composite!(Empty: A(U0), B, C(()),);
composite!(Wide: A(U9), B, C(Option<B8>), D(bool), E(()),);
composite!(Deep: A(Option<Outer>), B, C(Mid),);
