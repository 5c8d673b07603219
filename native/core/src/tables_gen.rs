// written by tools/gen_tables.py
mod e0 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        | EndpointTy | RequestTy | ResponseTy | Path | 
        | --- | --- | --- | --- | 

    }
    pub fn check(c: &mut Ctx) {
        
        ep_list(c, "e0", &LIST, true, &[], &[]);
    }
}
mod e1 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        omit_std = true;
        | EndpointTy | RequestTy | ResponseTy | Path | 
        | --- | --- | --- | --- | 

    }
    pub fn check(c: &mut Ctx) {
        
        ep_list(c, "e1", &LIST, false, &[], &[]);
    }
}
mod e2 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        omit_std = false;
        | EndpointTy | RequestTy | ResponseTy | Path | 
        | --- | --- | --- | --- | 
        | Ep0 | A4 | i64 | "_99Y000Y ffb☃f00fgeéadbY-/1a9.d☃é0fdcXe-" | 
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep0, A4, i64>(c, "Ep0", "_99Y000Y ffb☃f00fgeéadbY-/1a9.d☃é0fdcXe-");
        ep_list(c, "e2", &LIST, true, &[("_99Y000Y ffb☃f00fgeéadbY-/1a9.d☃é0fdcXe-", Key::for_path::<A4>("_99Y000Y ffb☃f00fgeéadbY-/1a9.d☃é0fdcXe-"), Key::for_path::<i64>("_99Y000Y ffb☃f00fgeéadbY-/1a9.d☃é0fdcXe-"))], &[<A4 as Schema>::SCHEMA, <i64 as Schema>::SCHEMA]);
    }
}
mod e3 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        | EndpointTy | RequestTy | ResponseTy | Path | Cfg |
        | --- | --- | --- | --- | --- |
        | Ep0 | B1<'a> | N1 | "9éfY_-ad0éZ1X1ZYb" |  |
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep0, B1, N1>(c, "Ep0", "9éfY_-ad0éZ1X1ZYb");
        ep_list(c, "e3", &LIST, true, &[("9éfY_-ad0éZ1X1ZYb", Key::for_path::<B1>("9éfY_-ad0éZ1X1ZYb"), Key::for_path::<N1>("9éfY_-ad0éZ1X1ZYb"))], &[<B1 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA]);
    }
}
mod e4 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        omit_std = true;
        | EndpointTy | RequestTy | ResponseTy | Path | Cfg |
        | --- | --- | --- | --- | --- |
        | Ep0 | B1<'a> | [A1; 2] | "9.gg_bZ" | cfg(any()) |
        | Ep1 | B1<'a> | f32 | "a /Y" | cfg(not(all())) |
    }
    pub fn check(c: &mut Ctx) {
        
        ep_list(c, "e4", &LIST, false, &[], &[]);
    }
}
mod e5 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        omit_std = false;
        | EndpointTy | RequestTy | ResponseTy | Path | Cfg |
        | --- | --- | --- | --- | --- |
        | Ep0 | E1 | N0 | "_0geag.e☃_.eYY/eéYXda☃cg//bd☃éX0edb0ceag" | cfg(any()) |
        | Ep1 | B0<'a> | (A3, E0, u16) | "/cf._cY-X" | cfg(all()) |
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep1, B0, (A3, E0, u16)>(c, "Ep1", "/cf._cY-X");
        ep_list(c, "e5", &LIST, true, &[("/cf._cY-X", Key::for_path::<B0>("/cf._cY-X"), Key::for_path::<(A3, E0, u16)>("/cf._cY-X"))], &[<B0 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA]);
    }
}
mod e6 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        | EndpointTy | RequestTy | ResponseTy | Path | 
        | --- | --- | --- | --- | 
        | Ep0 | U0 | [A1; 2] | "é" | 
        | Ep1 | A0 | N1 | "e.1X0" | 
        | Ep2 | () | N0 | "/" | 
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep0, U0, [A1; 2]>(c, "Ep0", "é");
        ep::<Ep1, A0, N1>(c, "Ep1", "e.1X0");
        ep::<Ep2, (), N0>(c, "Ep2", "/");
        ep_list(c, "e6", &LIST, true, &[("é", Key::for_path::<U0>("é"), Key::for_path::<[A1; 2]>("é")), ("e.1X0", Key::for_path::<A0>("e.1X0"), Key::for_path::<N1>("e.1X0")), ("/", Key::for_path::<()>("/"), Key::for_path::<N0>("/"))], &[<U0 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <N0 as Schema>::SCHEMA]);
    }
}
mod e7 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        omit_std = true;
        | EndpointTy | RequestTy | ResponseTy | Path | 
        | --- | --- | --- | --- | 
        | Ep0 | B0<'a> | char | "/g g--Z" | 
        | Ep1 | A2 | String | "Yeé..00Zc" | 
        | Ep2 | U0 | E1 | "-c9é.☃/a1a" | 
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep0, B0, char>(c, "Ep0", "/g g--Z");
        ep::<Ep1, A2, String>(c, "Ep1", "Yeé..00Zc");
        ep::<Ep2, U0, E1>(c, "Ep2", "-c9é.☃/a1a");
        ep_list(c, "e7", &LIST, false, &[("/g g--Z", Key::for_path::<B0>("/g g--Z"), Key::for_path::<char>("/g g--Z")), ("Yeé..00Zc", Key::for_path::<A2>("Yeé..00Zc"), Key::for_path::<String>("Yeé..00Zc")), ("-c9é.☃/a1a", Key::for_path::<U0>("-c9é.☃/a1a"), Key::for_path::<E1>("-c9é.☃/a1a"))], &[<B0 as Schema>::SCHEMA, <char as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA]);
    }
}
mod e8 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        omit_std = false;
        | EndpointTy | RequestTy | ResponseTy | Path | 
        | --- | --- | --- | --- | 
        | Ep0 | [u8; 4] | A4 | "1e☃" | 
        | Ep1 | A7 | u16 | ".1cX/ c/Z ☃a9☃/ ." | 
        | Ep2 | E0 | T0 | "dg" | 
        | Ep3 | N1 | N1 | "cf☃" | 
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep0, [u8; 4], A4>(c, "Ep0", "1e☃");
        ep::<Ep1, A7, u16>(c, "Ep1", ".1cX/ c/Z ☃a9☃/ .");
        ep::<Ep2, E0, T0>(c, "Ep2", "dg");
        ep::<Ep3, N1, N1>(c, "Ep3", "cf☃");
        ep_list(c, "e8", &LIST, true, &[("1e☃", Key::for_path::<[u8; 4]>("1e☃"), Key::for_path::<A4>("1e☃")), (".1cX/ c/Z ☃a9☃/ .", Key::for_path::<A7>(".1cX/ c/Z ☃a9☃/ ."), Key::for_path::<u16>(".1cX/ c/Z ☃a9☃/ .")), ("dg", Key::for_path::<E0>("dg"), Key::for_path::<T0>("dg")), ("cf☃", Key::for_path::<N1>("cf☃"), Key::for_path::<N1>("cf☃"))], &[<[u8; 4] as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <u16 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA]);
    }
}
mod e9 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        | EndpointTy | RequestTy | ResponseTy | Path | Cfg |
        | --- | --- | --- | --- | --- |
        | Ep0 | [A1; 2] | B0<'b> | "☃cZd/9YZc" |  |
        | Ep1 | A3 | A4 | "XZ/-Zb9 X" | cfg(any()) |
        | Ep2 | T0 | E1 | "f.1-/100éb0ggb -Z1caX ☃_ba99b☃Z1 é9aef9/" |  |
        | Ep3 | B1<'a> | i8 | "bd1ab☃" |  |
        | Ep4 | [[u8; 2]; 3] | A1 | "d9é_dXb_Z0b☃Z.e9_Xe//--f9YegY01_9Y ée-X." | cfg(not(all())) |
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep0, [A1; 2], B0>(c, "Ep0", "☃cZd/9YZc");
        ep::<Ep2, T0, E1>(c, "Ep2", "f.1-/100éb0ggb -Z1caX ☃_ba99b☃Z1 é9aef9/");
        ep::<Ep3, B1, i8>(c, "Ep3", "bd1ab☃");
        ep_list(c, "e9", &LIST, true, &[("☃cZd/9YZc", Key::for_path::<[A1; 2]>("☃cZd/9YZc"), Key::for_path::<B0>("☃cZd/9YZc")), ("f.1-/100éb0ggb -Z1caX ☃_ba99b☃Z1 é9aef9/", Key::for_path::<T0>("f.1-/100éb0ggb -Z1caX ☃_ba99b☃Z1 é9aef9/"), Key::for_path::<E1>("f.1-/100éb0ggb -Z1caX ☃_ba99b☃Z1 é9aef9/")), ("bd1ab☃", Key::for_path::<B1>("bd1ab☃"), Key::for_path::<i8>("bd1ab☃"))], &[<[A1; 2] as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA]);
    }
}
mod e10 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        omit_std = true;
        | EndpointTy | RequestTy | ResponseTy | Path | Cfg |
        | --- | --- | --- | --- | --- |
        | Ep0 | A5 | u16 | "YZ0 Z" |  |
        | Ep1 | A3 | A7 | "abc.1" | cfg(feature = "no-such-feature") |
        | Ep2 | A7 | [u8; 4] | "Z- " | cfg(all()) |
        | Ep3 | A3 | B1<'b> | "9Yeaa01_f" |  |
        | Ep4 | T0 | A4 | "X./0 f/_fYa.10.0Y-a0fe/Y☃. /b. ga9Z☃.fbY" | cfg(all()) |
        | Ep5 | N0 | U0 | "g9ebggb_f0bX1.é9/_b0X_dXébd/Y_e01eX 9Y.☃" |  |
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep0, A5, u16>(c, "Ep0", "YZ0 Z");
        ep::<Ep2, A7, [u8; 4]>(c, "Ep2", "Z- ");
        ep::<Ep3, A3, B1>(c, "Ep3", "9Yeaa01_f");
        ep::<Ep4, T0, A4>(c, "Ep4", "X./0 f/_fYa.10.0Y-a0fe/Y☃. /b. ga9Z☃.fbY");
        ep::<Ep5, N0, U0>(c, "Ep5", "g9ebggb_f0bX1.é9/_b0X_dXébd/Y_e01eX 9Y.☃");
        ep_list(c, "e10", &LIST, false, &[("YZ0 Z", Key::for_path::<A5>("YZ0 Z"), Key::for_path::<u16>("YZ0 Z")), ("Z- ", Key::for_path::<A7>("Z- "), Key::for_path::<[u8; 4]>("Z- ")), ("9Yeaa01_f", Key::for_path::<A3>("9Yeaa01_f"), Key::for_path::<B1>("9Yeaa01_f")), ("X./0 f/_fYa.10.0Y-a0fe/Y☃. /b. ga9Z☃.fbY", Key::for_path::<T0>("X./0 f/_fYa.10.0Y-a0fe/Y☃. /b. ga9Z☃.fbY"), Key::for_path::<A4>("X./0 f/_fYa.10.0Y-a0fe/Y☃. /b. ga9Z☃.fbY")), ("g9ebggb_f0bX1.é9/_b0X_dXébd/Y_e01eX 9Y.☃", Key::for_path::<N0>("g9ebggb_f0bX1.é9/_b0X_dXébd/Y_e01eX 9Y.☃"), Key::for_path::<U0>("g9ebggb_f0bX1.é9/_b0X_dXébd/Y_e01eX 9Y.☃"))], &[<A5 as Schema>::SCHEMA, <u16 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA]);
    }
}
mod e11 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        omit_std = false;
        | EndpointTy | RequestTy | ResponseTy | Path | Cfg |
        | --- | --- | --- | --- | --- |
        | Ep0 | i8 | A0 | "0Yéd9X-" | cfg(any()) |
        | Ep1 | B0<'a> | A8 | "d0Y9bb/./" |  |
        | Ep2 | (A3, E0, u16) | B0<'b> | "g0-" | cfg(feature = "no-such-feature") |
        | Ep3 | [[u8; 2]; 3] | bool | "" | cfg(any()) |
        | Ep4 | (u8, A2) | u16 | "b" |  |
        | Ep5 | B0<'a> | B1<'b> | "Xf☃ e0edZ." | cfg(feature = "no-such-feature") |
        | Ep6 | () | A8 | "☃d" |  |
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep1, B0, A8>(c, "Ep1", "d0Y9bb/./");
        ep::<Ep4, (u8, A2), u16>(c, "Ep4", "b");
        ep::<Ep6, (), A8>(c, "Ep6", "☃d");
        ep_list(c, "e11", &LIST, true, &[("d0Y9bb/./", Key::for_path::<B0>("d0Y9bb/./"), Key::for_path::<A8>("d0Y9bb/./")), ("b", Key::for_path::<(u8, A2)>("b"), Key::for_path::<u16>("b")), ("☃d", Key::for_path::<()>("☃d"), Key::for_path::<A8>("☃d"))], &[<B0 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <u16 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <A8 as Schema>::SCHEMA]);
    }
}
mod e12 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        | EndpointTy | RequestTy | ResponseTy | Path | 
        | --- | --- | --- | --- | 
        | Ep0 | f32 | B0<'b> | "0/c_" | 
        | Ep1 | N0 | () | "" | 
        | Ep2 | A0 | A7 | "é9e" | 
        | Ep3 | A7 | A5 | "0/" | 
        | Ep4 | A5 | f32 | "☃X1" | 
        | Ep5 | B1<'a> | char | "_9☃" | 
        | Ep6 | B0<'a> | u16 | "X." | 
        | Ep7 | f32 | A5 | "Yé/" | 
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep0, f32, B0>(c, "Ep0", "0/c_");
        ep::<Ep1, N0, ()>(c, "Ep1", "");
        ep::<Ep2, A0, A7>(c, "Ep2", "é9e");
        ep::<Ep3, A7, A5>(c, "Ep3", "0/");
        ep::<Ep4, A5, f32>(c, "Ep4", "☃X1");
        ep::<Ep5, B1, char>(c, "Ep5", "_9☃");
        ep::<Ep6, B0, u16>(c, "Ep6", "X.");
        ep::<Ep7, f32, A5>(c, "Ep7", "Yé/");
        ep_list(c, "e12", &LIST, true, &[("0/c_", Key::for_path::<f32>("0/c_"), Key::for_path::<B0>("0/c_")), ("", Key::for_path::<N0>(""), Key::for_path::<()>("")), ("é9e", Key::for_path::<A0>("é9e"), Key::for_path::<A7>("é9e")), ("0/", Key::for_path::<A7>("0/"), Key::for_path::<A5>("0/")), ("☃X1", Key::for_path::<A5>("☃X1"), Key::for_path::<f32>("☃X1")), ("_9☃", Key::for_path::<B1>("_9☃"), Key::for_path::<char>("_9☃")), ("X.", Key::for_path::<B0>("X."), Key::for_path::<u16>("X.")), ("Yé/", Key::for_path::<f32>("Yé/"), Key::for_path::<A5>("Yé/"))], &[<f32 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <char as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <u16 as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA]);
    }
}
mod e13 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        omit_std = true;
        | EndpointTy | RequestTy | ResponseTy | Path | 
        | --- | --- | --- | --- | 
        | Ep0 | i64 | A7 | " " | 
        | Ep1 | B1<'a> | A4 | "Zg ZZ" | 
        | Ep2 | A6 | B1<'b> | "-Xda." | 
        | Ep3 | A2 | A0 | "_éX/" | 
        | Ep4 | A8 | B1<'b> | "baé_1egf-" | 
        | Ep5 | [A1; 2] | B1<'b> | " 09cc" | 
        | Ep6 | T0 | A5 | "1Yé☃e" | 
        | Ep7 | U0 | u32 | "9é☃Xb/" | 
        | Ep8 | E0 | [u8; 4] | "._ " | 
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep0, i64, A7>(c, "Ep0", " ");
        ep::<Ep1, B1, A4>(c, "Ep1", "Zg ZZ");
        ep::<Ep2, A6, B1>(c, "Ep2", "-Xda.");
        ep::<Ep3, A2, A0>(c, "Ep3", "_éX/");
        ep::<Ep4, A8, B1>(c, "Ep4", "baé_1egf-");
        ep::<Ep5, [A1; 2], B1>(c, "Ep5", " 09cc");
        ep::<Ep6, T0, A5>(c, "Ep6", "1Yé☃e");
        ep::<Ep7, U0, u32>(c, "Ep7", "9é☃Xb/");
        ep::<Ep8, E0, [u8; 4]>(c, "Ep8", "._ ");
        ep_list(c, "e13", &LIST, false, &[(" ", Key::for_path::<i64>(" "), Key::for_path::<A7>(" ")), ("Zg ZZ", Key::for_path::<B1>("Zg ZZ"), Key::for_path::<A4>("Zg ZZ")), ("-Xda.", Key::for_path::<A6>("-Xda."), Key::for_path::<B1>("-Xda.")), ("_éX/", Key::for_path::<A2>("_éX/"), Key::for_path::<A0>("_éX/")), ("baé_1egf-", Key::for_path::<A8>("baé_1egf-"), Key::for_path::<B1>("baé_1egf-")), (" 09cc", Key::for_path::<[A1; 2]>(" 09cc"), Key::for_path::<B1>(" 09cc")), ("1Yé☃e", Key::for_path::<T0>("1Yé☃e"), Key::for_path::<A5>("1Yé☃e")), ("9é☃Xb/", Key::for_path::<U0>("9é☃Xb/"), Key::for_path::<u32>("9é☃Xb/")), ("._ ", Key::for_path::<E0>("._ "), Key::for_path::<[u8; 4]>("._ "))], &[<i64 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA]);
    }
}
mod e14 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        omit_std = false;
        | EndpointTy | RequestTy | ResponseTy | Path | 
        | --- | --- | --- | --- | 
        | Ep0 | A7 | N0 | "c0" | 
        | Ep1 | E1 | A4 | "X9XgYYXed9cY" | 
        | Ep2 | i8 | N1 | "ac00XegZc.fé" | 
        | Ep3 | A2 | U0 | "Yac0e" | 
        | Ep4 | i8 | [u8; 4] | "Xf/f1Z☃a" | 
        | Ep5 | N0 | A3 | ". XX0- ☃0/X_" | 
        | Ep6 | N1 | A5 | "☃fa-_d1gé_é" | 
        | Ep7 | B1<'a> | A3 | "X f-céXff.__" | 
        | Ep8 | B1<'a> | String | "Yfé.X☃g" | 
        | Ep9 | A4 | A6 | "☃91 a9_é1ega1/dX1" | 
        | Ep10 | T0 | String | "" | 
        | Ep11 | B1<'a> | f32 | "g1cX .0g1.9.é1g-9da_bY.Zbcf  1abé/cfagd " | 
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep0, A7, N0>(c, "Ep0", "c0");
        ep::<Ep1, E1, A4>(c, "Ep1", "X9XgYYXed9cY");
        ep::<Ep2, i8, N1>(c, "Ep2", "ac00XegZc.fé");
        ep::<Ep3, A2, U0>(c, "Ep3", "Yac0e");
        ep::<Ep4, i8, [u8; 4]>(c, "Ep4", "Xf/f1Z☃a");
        ep::<Ep5, N0, A3>(c, "Ep5", ". XX0- ☃0/X_");
        ep::<Ep6, N1, A5>(c, "Ep6", "☃fa-_d1gé_é");
        ep::<Ep7, B1, A3>(c, "Ep7", "X f-céXff.__");
        ep::<Ep8, B1, String>(c, "Ep8", "Yfé.X☃g");
        ep::<Ep9, A4, A6>(c, "Ep9", "☃91 a9_é1ega1/dX1");
        ep::<Ep10, T0, String>(c, "Ep10", "");
        ep::<Ep11, B1, f32>(c, "Ep11", "g1cX .0g1.9.é1g-9da_bY.Zbcf  1abé/cfagd ");
        ep_list(c, "e14", &LIST, true, &[("c0", Key::for_path::<A7>("c0"), Key::for_path::<N0>("c0")), ("X9XgYYXed9cY", Key::for_path::<E1>("X9XgYYXed9cY"), Key::for_path::<A4>("X9XgYYXed9cY")), ("ac00XegZc.fé", Key::for_path::<i8>("ac00XegZc.fé"), Key::for_path::<N1>("ac00XegZc.fé")), ("Yac0e", Key::for_path::<A2>("Yac0e"), Key::for_path::<U0>("Yac0e")), ("Xf/f1Z☃a", Key::for_path::<i8>("Xf/f1Z☃a"), Key::for_path::<[u8; 4]>("Xf/f1Z☃a")), (". XX0- ☃0/X_", Key::for_path::<N0>(". XX0- ☃0/X_"), Key::for_path::<A3>(". XX0- ☃0/X_")), ("☃fa-_d1gé_é", Key::for_path::<N1>("☃fa-_d1gé_é"), Key::for_path::<A5>("☃fa-_d1gé_é")), ("X f-céXff.__", Key::for_path::<B1>("X f-céXff.__"), Key::for_path::<A3>("X f-céXff.__")), ("Yfé.X☃g", Key::for_path::<B1>("Yfé.X☃g"), Key::for_path::<String>("Yfé.X☃g")), ("☃91 a9_é1ega1/dX1", Key::for_path::<A4>("☃91 a9_é1ega1/dX1"), Key::for_path::<A6>("☃91 a9_é1ega1/dX1")), ("", Key::for_path::<T0>(""), Key::for_path::<String>("")), ("g1cX .0g1.9.é1g-9da_bY.Zbcf  1abé/cfagd ", Key::for_path::<B1>("g1cX .0g1.9.é1g-9da_bY.Zbcf  1abé/cfagd "), Key::for_path::<f32>("g1cX .0g1.9.é1g-9da_bY.Zbcf  1abé/cfagd "))], &[<A7 as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <f32 as Schema>::SCHEMA]);
    }
}
mod e15 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        | EndpointTy | RequestTy | ResponseTy | Path | Cfg |
        | --- | --- | --- | --- | --- |
        | Ep0 | B1<'a> | B0<'b> | "-0acccabe" | cfg(feature = "no-such-feature") |
        | Ep1 | U0 | u64 | "dX☃ e/b9f9-." | cfg(feature = "no-such-feature") |
        | Ep2 | B1<'a> | String | "XY" | cfg(not(all())) |
        | Ep3 | B0<'a> | f32 | "-" | cfg(not(any())) |
        | Ep4 | B1<'a> | A0 | "YZ1ff☃dbg/fgd_-☃g" | cfg(feature = "no-such-feature") |
        | Ep5 | B0<'a> | [[u8; 2]; 3] | "1Xbfeee" | cfg(all()) |
        | Ep6 | B0<'a> | B0<'b> | "éZ-☃Y0YgY" | cfg(feature = "no-such-feature") |
        | Ep7 | B1<'a> | B0<'b> | "é" |  |
        | Ep8 | N0 | A3 | ".Zc☃YYd1e1--Zgé/1 ☃eZ9a_f1é_Yf☃YaY.eXZfé☃☃eadXZd_d é-c.gZéXéX☃é 0d☃dbYab1☃9111fgdé9éf _YYYc_d0 éZ_b1..é0-X/-é/..1ca9_cXf_X.0g.Zd1/" |  |
        | Ep9 | A7 | (A3, E0, u16) | "9a0eZ9_é9//eé_.☃__ ca☃e.9Y_g/a11c_é☃eb☃0" |  |
        | Ep10 | A8 | E1 | ".ed☃fg-0YYa-" | cfg(not(all())) |
        | Ep11 | N0 | () | ".0-.." |  |
        | Ep12 | (A3, E0, u16) | u32 | "b/9 XbZf☃ce" |  |
        | Ep13 | A2 | String | "9☃é.g-fcY" | cfg(any()) |
        | Ep14 | char | N1 | "g10f_f_b" |  |
        | Ep15 | A5 | N1 | "9c" | cfg(not(all())) |
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep3, B0, f32>(c, "Ep3", "-");
        ep::<Ep5, B0, [[u8; 2]; 3]>(c, "Ep5", "1Xbfeee");
        ep::<Ep7, B1, B0>(c, "Ep7", "é");
        ep::<Ep8, N0, A3>(c, "Ep8", ".Zc☃YYd1e1--Zgé/1 ☃eZ9a_f1é_Yf☃YaY.eXZfé☃☃eadXZd_d é-c.gZéXéX☃é 0d☃dbYab1☃9111fgdé9éf _YYYc_d0 éZ_b1..é0-X/-é/..1ca9_cXf_X.0g.Zd1/");
        ep::<Ep9, A7, (A3, E0, u16)>(c, "Ep9", "9a0eZ9_é9//eé_.☃__ ca☃e.9Y_g/a11c_é☃eb☃0");
        ep::<Ep11, N0, ()>(c, "Ep11", ".0-..");
        ep::<Ep12, (A3, E0, u16), u32>(c, "Ep12", "b/9 XbZf☃ce");
        ep::<Ep14, char, N1>(c, "Ep14", "g10f_f_b");
        ep_list(c, "e15", &LIST, true, &[("-", Key::for_path::<B0>("-"), Key::for_path::<f32>("-")), ("1Xbfeee", Key::for_path::<B0>("1Xbfeee"), Key::for_path::<[[u8; 2]; 3]>("1Xbfeee")), ("é", Key::for_path::<B1>("é"), Key::for_path::<B0>("é")), (".Zc☃YYd1e1--Zgé/1 ☃eZ9a_f1é_Yf☃YaY.eXZfé☃☃eadXZd_d é-c.gZéXéX☃é 0d☃dbYab1☃9111fgdé9éf _YYYc_d0 éZ_b1..é0-X/-é/..1ca9_cXf_X.0g.Zd1/", Key::for_path::<N0>(".Zc☃YYd1e1--Zgé/1 ☃eZ9a_f1é_Yf☃YaY.eXZfé☃☃eadXZd_d é-c.gZéXéX☃é 0d☃dbYab1☃9111fgdé9éf _YYYc_d0 éZ_b1..é0-X/-é/..1ca9_cXf_X.0g.Zd1/"), Key::for_path::<A3>(".Zc☃YYd1e1--Zgé/1 ☃eZ9a_f1é_Yf☃YaY.eXZfé☃☃eadXZd_d é-c.gZéXéX☃é 0d☃dbYab1☃9111fgdé9éf _YYYc_d0 éZ_b1..é0-X/-é/..1ca9_cXf_X.0g.Zd1/")), ("9a0eZ9_é9//eé_.☃__ ca☃e.9Y_g/a11c_é☃eb☃0", Key::for_path::<A7>("9a0eZ9_é9//eé_.☃__ ca☃e.9Y_g/a11c_é☃eb☃0"), Key::for_path::<(A3, E0, u16)>("9a0eZ9_é9//eé_.☃__ ca☃e.9Y_g/a11c_é☃eb☃0")), (".0-..", Key::for_path::<N0>(".0-.."), Key::for_path::<()>(".0-..")), ("b/9 XbZf☃ce", Key::for_path::<(A3, E0, u16)>("b/9 XbZf☃ce"), Key::for_path::<u32>("b/9 XbZf☃ce")), ("g10f_f_b", Key::for_path::<char>("g10f_f_b"), Key::for_path::<N1>("g10f_f_b"))], &[<B0 as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <char as Schema>::SCHEMA, <N1 as Schema>::SCHEMA]);
    }
}
mod e16 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        omit_std = true;
        | EndpointTy | RequestTy | ResponseTy | Path | Cfg |
        | --- | --- | --- | --- | --- |
        | Ep0 | A6 | bool | "0afaégYX.Z☃" | cfg(all()) |
        | Ep1 | B1<'a> | B0<'b> | "c. Ydbaa/☃" | cfg(not(any())) |
        | Ep2 | A4 | A5 | "dX__1" |  |
        | Ep3 | A1 | U0 | "0ccgdbXY1091é☃e☃éed☃d9fefX-1fa_aY/XdfZgé" | cfg(all()) |
        | Ep4 | A3 | [u8; 4] | "X" | cfg(all()) |
        | Ep5 | [A1; 2] | A5 | "b/d_Z" |  |
        | Ep6 | u16 | () | "Z1" | cfg(not(all())) |
        | Ep7 | bool | T0 | "" | cfg(all()) |
        | Ep8 | B0<'a> | A3 | "gZ.fdd☃-feé_" |  |
        | Ep9 | A6 | B0<'b> | "9☃" | cfg(not(all())) |
        | Ep10 | A2 | A5 | "é☃YdgXae☃a9b9c9_b" |  |
        | Ep11 | A5 | A1 | "_feéda" | cfg(not(all())) |
        | Ep12 | A7 | E0 | "cY9/bY☃" |  |
        | Ep13 | B1<'a> | [u8; 4] | "gé/9" |  |
        | Ep14 | u32 | i64 | "☃-gé" |  |
        | Ep15 | B1<'a> | u16 | "g Y1Z0 " |  |
        | Ep16 | A0 | B0<'b> | "Z1ff9fg-" | cfg(feature = "no-such-feature") |
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep0, A6, bool>(c, "Ep0", "0afaégYX.Z☃");
        ep::<Ep1, B1, B0>(c, "Ep1", "c. Ydbaa/☃");
        ep::<Ep2, A4, A5>(c, "Ep2", "dX__1");
        ep::<Ep3, A1, U0>(c, "Ep3", "0ccgdbXY1091é☃e☃éed☃d9fefX-1fa_aY/XdfZgé");
        ep::<Ep4, A3, [u8; 4]>(c, "Ep4", "X");
        ep::<Ep5, [A1; 2], A5>(c, "Ep5", "b/d_Z");
        ep::<Ep7, bool, T0>(c, "Ep7", "");
        ep::<Ep8, B0, A3>(c, "Ep8", "gZ.fdd☃-feé_");
        ep::<Ep10, A2, A5>(c, "Ep10", "é☃YdgXae☃a9b9c9_b");
        ep::<Ep12, A7, E0>(c, "Ep12", "cY9/bY☃");
        ep::<Ep13, B1, [u8; 4]>(c, "Ep13", "gé/9");
        ep::<Ep14, u32, i64>(c, "Ep14", "☃-gé");
        ep::<Ep15, B1, u16>(c, "Ep15", "g Y1Z0 ");
        ep_list(c, "e16", &LIST, false, &[("0afaégYX.Z☃", Key::for_path::<A6>("0afaégYX.Z☃"), Key::for_path::<bool>("0afaégYX.Z☃")), ("c. Ydbaa/☃", Key::for_path::<B1>("c. Ydbaa/☃"), Key::for_path::<B0>("c. Ydbaa/☃")), ("dX__1", Key::for_path::<A4>("dX__1"), Key::for_path::<A5>("dX__1")), ("0ccgdbXY1091é☃e☃éed☃d9fefX-1fa_aY/XdfZgé", Key::for_path::<A1>("0ccgdbXY1091é☃e☃éed☃d9fefX-1fa_aY/XdfZgé"), Key::for_path::<U0>("0ccgdbXY1091é☃e☃éed☃d9fefX-1fa_aY/XdfZgé")), ("X", Key::for_path::<A3>("X"), Key::for_path::<[u8; 4]>("X")), ("b/d_Z", Key::for_path::<[A1; 2]>("b/d_Z"), Key::for_path::<A5>("b/d_Z")), ("", Key::for_path::<bool>(""), Key::for_path::<T0>("")), ("gZ.fdd☃-feé_", Key::for_path::<B0>("gZ.fdd☃-feé_"), Key::for_path::<A3>("gZ.fdd☃-feé_")), ("é☃YdgXae☃a9b9c9_b", Key::for_path::<A2>("é☃YdgXae☃a9b9c9_b"), Key::for_path::<A5>("é☃YdgXae☃a9b9c9_b")), ("cY9/bY☃", Key::for_path::<A7>("cY9/bY☃"), Key::for_path::<E0>("cY9/bY☃")), ("gé/9", Key::for_path::<B1>("gé/9"), Key::for_path::<[u8; 4]>("gé/9")), ("☃-gé", Key::for_path::<u32>("☃-gé"), Key::for_path::<i64>("☃-gé")), ("g Y1Z0 ", Key::for_path::<B1>("g Y1Z0 "), Key::for_path::<u16>("g Y1Z0 "))], &[<A6 as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <u16 as Schema>::SCHEMA]);
    }
}
mod e17 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        omit_std = false;
        | EndpointTy | RequestTy | ResponseTy | Path | Cfg |
        | --- | --- | --- | --- | --- |
        | Ep0 | bool | (A3, E0, u16) | "-9 Xfd09Xa" | cfg(feature = "no-such-feature") |
        | Ep1 | A0 | N0 | "/X9c-e.☃☃_af" | cfg(feature = "no-such-feature") |
        | Ep2 | (A3, E0, u16) | B0<'b> | "a ad" | cfg(all()) |
        | Ep3 | B0<'a> | B1<'b> | "19" |  |
        | Ep4 | String | i8 | "Y-cgcc1/fé" |  |
        | Ep5 | (A3, E0, u16) | A5 | "ZégXY" | cfg(not(any())) |
        | Ep6 | () | A0 | "9d9" | cfg(not(all())) |
        | Ep7 | A0 | A5 | "ZY" | cfg(not(any())) |
        | Ep8 | i64 | A6 | "-ba0e gef/9.é1éd☃_X0fcg☃_d☃f.éae9_ _c-1dé/cf/_bbXa__cd_Z0Xdée-1a-aeXed9éege_fféd1.fdfccZY-- agéb-f0b☃9f1☃c9ébY. fc☃-Yf☃_f☃egc.1Y//" |  |
        | Ep9 | T0 | A8 | " fed00Ydc." | cfg(feature = "no-such-feature") |
        | Ep10 | B0<'a> | A1 | "cf_" |  |
        | Ep11 | B0<'a> | B1<'b> | "Zf0a" | cfg(feature = "no-such-feature") |
        | Ep12 | i64 | A7 | "9 g1gX1ea.gaYcfda" | cfg(feature = "no-such-feature") |
        | Ep13 | i8 | f32 | "f--.Xac☃Xg" | cfg(all()) |
        | Ep14 | i64 | (A3, E0, u16) | "éabf_19fY" |  |
        | Ep15 | N1 | [u8; 4] | "" | cfg(any()) |
        | Ep16 | B1<'a> | [A1; 2] | "_" | cfg(not(any())) |
        | Ep17 | A7 | N0 | "c☃X" | cfg(not(all())) |
        | Ep18 | A0 | f32 | "g_1eeXddaf.-é☃eéYb/e-9e0X/☃0YZad/_cXgY.d" | cfg(not(any())) |
        | Ep19 | char | B0<'b> | "egZg" | cfg(not(all())) |
        | Ep20 | B1<'a> | T0 | "cYcb9dYfaf" | cfg(any()) |
        | Ep21 | [A1; 2] | f32 | "0d☃g_é Y Xf " | cfg(feature = "no-such-feature") |
        | Ep22 | A6 | B0<'b> | "90Z" | cfg(not(all())) |
        | Ep23 | E1 | A3 | "Z" | cfg(not(any())) |
        | Ep24 | u64 | A0 | "/_XéZb/1ggc1" |  |
        | Ep25 | A5 | () | "Y-eZ_" |  |
        | Ep26 | A4 | u8 | "c0." | cfg(all()) |
        | Ep27 | A3 | U0 | "éeXg9" |  |
        | Ep28 | i8 | i8 | "☃☃-" | cfg(all()) |
        | Ep29 | B0<'a> | [u8; 4] | "0 g9.Z0e" | cfg(not(all())) |
        | Ep30 | [u8; 4] | [u8; 4] | "d -_- ee_éé" |  |
        | Ep31 | N0 | B0<'b> | "X☃c.Zgad-Zc9cbg._" | cfg(feature = "no-such-feature") |
        | Ep32 | i8 | E1 | "é// .g-f" |  |
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep2, (A3, E0, u16), B0>(c, "Ep2", "a ad");
        ep::<Ep3, B0, B1>(c, "Ep3", "19");
        ep::<Ep4, String, i8>(c, "Ep4", "Y-cgcc1/fé");
        ep::<Ep5, (A3, E0, u16), A5>(c, "Ep5", "ZégXY");
        ep::<Ep7, A0, A5>(c, "Ep7", "ZY");
        ep::<Ep8, i64, A6>(c, "Ep8", "-ba0e gef/9.é1éd☃_X0fcg☃_d☃f.éae9_ _c-1dé/cf/_bbXa__cd_Z0Xdée-1a-aeXed9éege_fféd1.fdfccZY-- agéb-f0b☃9f1☃c9ébY. fc☃-Yf☃_f☃egc.1Y//");
        ep::<Ep10, B0, A1>(c, "Ep10", "cf_");
        ep::<Ep13, i8, f32>(c, "Ep13", "f--.Xac☃Xg");
        ep::<Ep14, i64, (A3, E0, u16)>(c, "Ep14", "éabf_19fY");
        ep::<Ep16, B1, [A1; 2]>(c, "Ep16", "_");
        ep::<Ep18, A0, f32>(c, "Ep18", "g_1eeXddaf.-é☃eéYb/e-9e0X/☃0YZad/_cXgY.d");
        ep::<Ep23, E1, A3>(c, "Ep23", "Z");
        ep::<Ep24, u64, A0>(c, "Ep24", "/_XéZb/1ggc1");
        ep::<Ep25, A5, ()>(c, "Ep25", "Y-eZ_");
        ep::<Ep26, A4, u8>(c, "Ep26", "c0.");
        ep::<Ep27, A3, U0>(c, "Ep27", "éeXg9");
        ep::<Ep28, i8, i8>(c, "Ep28", "☃☃-");
        ep::<Ep30, [u8; 4], [u8; 4]>(c, "Ep30", "d -_- ee_éé");
        ep::<Ep32, i8, E1>(c, "Ep32", "é// .g-f");
        ep_list(c, "e17", &LIST, true, &[("a ad", Key::for_path::<(A3, E0, u16)>("a ad"), Key::for_path::<B0>("a ad")), ("19", Key::for_path::<B0>("19"), Key::for_path::<B1>("19")), ("Y-cgcc1/fé", Key::for_path::<String>("Y-cgcc1/fé"), Key::for_path::<i8>("Y-cgcc1/fé")), ("ZégXY", Key::for_path::<(A3, E0, u16)>("ZégXY"), Key::for_path::<A5>("ZégXY")), ("ZY", Key::for_path::<A0>("ZY"), Key::for_path::<A5>("ZY")), ("-ba0e gef/9.é1éd☃_X0fcg☃_d☃f.éae9_ _c-1dé/cf/_bbXa__cd_Z0Xdée-1a-aeXed9éege_fféd1.fdfccZY-- agéb-f0b☃9f1☃c9ébY. fc☃-Yf☃_f☃egc.1Y//", Key::for_path::<i64>("-ba0e gef/9.é1éd☃_X0fcg☃_d☃f.éae9_ _c-1dé/cf/_bbXa__cd_Z0Xdée-1a-aeXed9éege_fféd1.fdfccZY-- agéb-f0b☃9f1☃c9ébY. fc☃-Yf☃_f☃egc.1Y//"), Key::for_path::<A6>("-ba0e gef/9.é1éd☃_X0fcg☃_d☃f.éae9_ _c-1dé/cf/_bbXa__cd_Z0Xdée-1a-aeXed9éege_fféd1.fdfccZY-- agéb-f0b☃9f1☃c9ébY. fc☃-Yf☃_f☃egc.1Y//")), ("cf_", Key::for_path::<B0>("cf_"), Key::for_path::<A1>("cf_")), ("f--.Xac☃Xg", Key::for_path::<i8>("f--.Xac☃Xg"), Key::for_path::<f32>("f--.Xac☃Xg")), ("éabf_19fY", Key::for_path::<i64>("éabf_19fY"), Key::for_path::<(A3, E0, u16)>("éabf_19fY")), ("_", Key::for_path::<B1>("_"), Key::for_path::<[A1; 2]>("_")), ("g_1eeXddaf.-é☃eéYb/e-9e0X/☃0YZad/_cXgY.d", Key::for_path::<A0>("g_1eeXddaf.-é☃eéYb/e-9e0X/☃0YZad/_cXgY.d"), Key::for_path::<f32>("g_1eeXddaf.-é☃eéYb/e-9e0X/☃0YZad/_cXgY.d")), ("Z", Key::for_path::<E1>("Z"), Key::for_path::<A3>("Z")), ("/_XéZb/1ggc1", Key::for_path::<u64>("/_XéZb/1ggc1"), Key::for_path::<A0>("/_XéZb/1ggc1")), ("Y-eZ_", Key::for_path::<A5>("Y-eZ_"), Key::for_path::<()>("Y-eZ_")), ("c0.", Key::for_path::<A4>("c0."), Key::for_path::<u8>("c0.")), ("éeXg9", Key::for_path::<A3>("éeXg9"), Key::for_path::<U0>("éeXg9")), ("☃☃-", Key::for_path::<i8>("☃☃-"), Key::for_path::<i8>("☃☃-")), ("d -_- ee_éé", Key::for_path::<[u8; 4]>("d -_- ee_éé"), Key::for_path::<[u8; 4]>("d -_- ee_éé")), ("é// .g-f", Key::for_path::<i8>("é// .g-f"), Key::for_path::<E1>("é// .g-f"))], &[<(A3, E0, u16) as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA]);
    }
}
mod e18 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        | EndpointTy | RequestTy | ResponseTy | Path | 
        | --- | --- | --- | --- | 

    }
    pub fn check(c: &mut Ctx) {
        
        ep_list(c, "e18", &LIST, true, &[], &[]);
    }
}
mod e19 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        omit_std = true;
        | EndpointTy | RequestTy | ResponseTy | Path | 
        | --- | --- | --- | --- | 

    }
    pub fn check(c: &mut Ctx) {
        
        ep_list(c, "e19", &LIST, false, &[], &[]);
    }
}
mod e20 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        omit_std = false;
        | EndpointTy | RequestTy | ResponseTy | Path | 
        | --- | --- | --- | --- | 
        | Ep0 | N1 | i8 | "XdeafcZc" | 
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep0, N1, i8>(c, "Ep0", "XdeafcZc");
        ep_list(c, "e20", &LIST, true, &[("XdeafcZc", Key::for_path::<N1>("XdeafcZc"), Key::for_path::<i8>("XdeafcZc"))], &[<N1 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA]);
    }
}
mod e21 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        | EndpointTy | RequestTy | ResponseTy | Path | Cfg |
        | --- | --- | --- | --- | --- |
        | Ep0 | [[u8; 2]; 3] | (A3, E0, u16) | " 9__Y.Z.b" | cfg(not(all())) |
    }
    pub fn check(c: &mut Ctx) {
        
        ep_list(c, "e21", &LIST, true, &[], &[]);
    }
}
mod e22 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        omit_std = true;
        | EndpointTy | RequestTy | ResponseTy | Path | Cfg |
        | --- | --- | --- | --- | --- |
        | Ep0 | [[u8; 2]; 3] | B0<'b> | "d.c.d1_e" |  |
        | Ep1 | A0 | B1<'b> | "X.Ye__é1/" | cfg(not(all())) |
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep0, [[u8; 2]; 3], B0>(c, "Ep0", "d.c.d1_e");
        ep_list(c, "e22", &LIST, false, &[("d.c.d1_e", Key::for_path::<[[u8; 2]; 3]>("d.c.d1_e"), Key::for_path::<B0>("d.c.d1_e"))], &[<[[u8; 2]; 3] as Schema>::SCHEMA, <B0 as Schema>::SCHEMA]);
    }
}
mod e23 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        omit_std = false;
        | EndpointTy | RequestTy | ResponseTy | Path | Cfg |
        | --- | --- | --- | --- | --- |
        | Ep0 | () | u64 | "Z feb0bcgX/-" |  |
        | Ep1 | N1 | U0 | "ga9g/1éX☃" | cfg(feature = "no-such-feature") |
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep0, (), u64>(c, "Ep0", "Z feb0bcgX/-");
        ep_list(c, "e23", &LIST, true, &[("Z feb0bcgX/-", Key::for_path::<()>("Z feb0bcgX/-"), Key::for_path::<u64>("Z feb0bcgX/-"))], &[<() as Schema>::SCHEMA, <u64 as Schema>::SCHEMA]);
    }
}
mod e24 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        | EndpointTy | RequestTy | ResponseTy | Path | 
        | --- | --- | --- | --- | 
        | Ep0 | (u8, A2) | B0<'b> | "gZ9/fbdgc1/d_cfé0f0☃☃c. 1-☃d_bda/☃éaYa.Z" | 
        | Ep1 | [u8; 4] | bool | "☃eca YYeX/gcaX☃  " | 
        | Ep2 | A1 | E1 | "dg1bZc" | 
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep0, (u8, A2), B0>(c, "Ep0", "gZ9/fbdgc1/d_cfé0f0☃☃c. 1-☃d_bda/☃éaYa.Z");
        ep::<Ep1, [u8; 4], bool>(c, "Ep1", "☃eca YYeX/gcaX☃  ");
        ep::<Ep2, A1, E1>(c, "Ep2", "dg1bZc");
        ep_list(c, "e24", &LIST, true, &[("gZ9/fbdgc1/d_cfé0f0☃☃c. 1-☃d_bda/☃éaYa.Z", Key::for_path::<(u8, A2)>("gZ9/fbdgc1/d_cfé0f0☃☃c. 1-☃d_bda/☃éaYa.Z"), Key::for_path::<B0>("gZ9/fbdgc1/d_cfé0f0☃☃c. 1-☃d_bda/☃éaYa.Z")), ("☃eca YYeX/gcaX☃  ", Key::for_path::<[u8; 4]>("☃eca YYeX/gcaX☃  "), Key::for_path::<bool>("☃eca YYeX/gcaX☃  ")), ("dg1bZc", Key::for_path::<A1>("dg1bZc"), Key::for_path::<E1>("dg1bZc"))], &[<(u8, A2) as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA]);
    }
}
mod e25 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        omit_std = true;
        | EndpointTy | RequestTy | ResponseTy | Path | 
        | --- | --- | --- | --- | 
        | Ep0 | u8 | A4 | "ge_Y-afb☃1édfgbX_YfeYd90.fca/f/X1c1X☃Zb9☃-.X☃-_gdXbcZ/e Xd-/cdac YZZf-90d/éffa☃.eéYXad0c.a1 011e-Yc1Zce/X XcYab/0cdd/.X.é.éYbc.1_c" | 
        | Ep1 | i8 | (A3, E0, u16) | "☃//.bgeZ._g" | 
        | Ep2 | f32 | bool | "ga9éXg1" | 
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep0, u8, A4>(c, "Ep0", "ge_Y-afb☃1édfgbX_YfeYd90.fca/f/X1c1X☃Zb9☃-.X☃-_gdXbcZ/e Xd-/cdac YZZf-90d/éffa☃.eéYXad0c.a1 011e-Yc1Zce/X XcYab/0cdd/.X.é.éYbc.1_c");
        ep::<Ep1, i8, (A3, E0, u16)>(c, "Ep1", "☃//.bgeZ._g");
        ep::<Ep2, f32, bool>(c, "Ep2", "ga9éXg1");
        ep_list(c, "e25", &LIST, false, &[("ge_Y-afb☃1édfgbX_YfeYd90.fca/f/X1c1X☃Zb9☃-.X☃-_gdXbcZ/e Xd-/cdac YZZf-90d/éffa☃.eéYXad0c.a1 011e-Yc1Zce/X XcYab/0cdd/.X.é.éYbc.1_c", Key::for_path::<u8>("ge_Y-afb☃1édfgbX_YfeYd90.fca/f/X1c1X☃Zb9☃-.X☃-_gdXbcZ/e Xd-/cdac YZZf-90d/éffa☃.eéYXad0c.a1 011e-Yc1Zce/X XcYab/0cdd/.X.é.éYbc.1_c"), Key::for_path::<A4>("ge_Y-afb☃1édfgbX_YfeYd90.fca/f/X1c1X☃Zb9☃-.X☃-_gdXbcZ/e Xd-/cdac YZZf-90d/éffa☃.eéYXad0c.a1 011e-Yc1Zce/X XcYab/0cdd/.X.é.éYbc.1_c")), ("☃//.bgeZ._g", Key::for_path::<i8>("☃//.bgeZ._g"), Key::for_path::<(A3, E0, u16)>("☃//.bgeZ._g")), ("ga9éXg1", Key::for_path::<f32>("ga9éXg1"), Key::for_path::<bool>("ga9éXg1"))], &[<u8 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <bool as Schema>::SCHEMA]);
    }
}
mod e26 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        omit_std = false;
        | EndpointTy | RequestTy | ResponseTy | Path | 
        | --- | --- | --- | --- | 
        | Ep0 | (u8, A2) | i64 | "0 c/ /Zéb1 " | 
        | Ep1 | E1 | U0 | "g/dd-abec" | 
        | Ep2 | A7 | (u8, A2) | "☃b_Z0" | 
        | Ep3 | A8 | [[u8; 2]; 3] | "" | 
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep0, (u8, A2), i64>(c, "Ep0", "0 c/ /Zéb1 ");
        ep::<Ep1, E1, U0>(c, "Ep1", "g/dd-abec");
        ep::<Ep2, A7, (u8, A2)>(c, "Ep2", "☃b_Z0");
        ep::<Ep3, A8, [[u8; 2]; 3]>(c, "Ep3", "");
        ep_list(c, "e26", &LIST, true, &[("0 c/ /Zéb1 ", Key::for_path::<(u8, A2)>("0 c/ /Zéb1 "), Key::for_path::<i64>("0 c/ /Zéb1 ")), ("g/dd-abec", Key::for_path::<E1>("g/dd-abec"), Key::for_path::<U0>("g/dd-abec")), ("☃b_Z0", Key::for_path::<A7>("☃b_Z0"), Key::for_path::<(u8, A2)>("☃b_Z0")), ("", Key::for_path::<A8>(""), Key::for_path::<[[u8; 2]; 3]>(""))], &[<(u8, A2) as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA]);
    }
}
mod e27 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        | EndpointTy | RequestTy | ResponseTy | Path | Cfg |
        | --- | --- | --- | --- | --- |
        | Ep0 | u8 | U0 | "b/9/g0fd/9Y" |  |
        | Ep1 | B0<'a> | B0<'b> | ".1 9._-Y" |  |
        | Ep2 | B1<'a> | N1 | "ZZXeZ" |  |
        | Ep3 | B1<'a> | T0 | "aYbe9b_-☃" | cfg(all()) |
        | Ep4 | B1<'a> | B1<'b> | "b0g/b." | cfg(not(all())) |
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep0, u8, U0>(c, "Ep0", "b/9/g0fd/9Y");
        ep::<Ep1, B0, B0>(c, "Ep1", ".1 9._-Y");
        ep::<Ep2, B1, N1>(c, "Ep2", "ZZXeZ");
        ep::<Ep3, B1, T0>(c, "Ep3", "aYbe9b_-☃");
        ep_list(c, "e27", &LIST, true, &[("b/9/g0fd/9Y", Key::for_path::<u8>("b/9/g0fd/9Y"), Key::for_path::<U0>("b/9/g0fd/9Y")), (".1 9._-Y", Key::for_path::<B0>(".1 9._-Y"), Key::for_path::<B0>(".1 9._-Y")), ("ZZXeZ", Key::for_path::<B1>("ZZXeZ"), Key::for_path::<N1>("ZZXeZ")), ("aYbe9b_-☃", Key::for_path::<B1>("aYbe9b_-☃"), Key::for_path::<T0>("aYbe9b_-☃"))], &[<u8 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA]);
    }
}
mod e28 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        omit_std = true;
        | EndpointTy | RequestTy | ResponseTy | Path | Cfg |
        | --- | --- | --- | --- | --- |
        | Ep0 | A2 | (u8, A2) | "X/Z.X.- ☃é9ada11/ -X9g01_/aY9Y/0egaYZb-g" | cfg(any()) |
        | Ep1 | i8 | B0<'b> | "e..Y  ☃eé_X fce/f" | cfg(any()) |
        | Ep2 | u64 | E0 | "bdé" |  |
        | Ep3 | i8 | (u8, A2) | "1Ze_e0b☃X-fY" |  |
        | Ep4 | i8 | E0 | "" | cfg(all()) |
        | Ep5 | A2 | B0<'b> | "gY-☃.ecb" | cfg(not(any())) |
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep2, u64, E0>(c, "Ep2", "bdé");
        ep::<Ep3, i8, (u8, A2)>(c, "Ep3", "1Ze_e0b☃X-fY");
        ep::<Ep4, i8, E0>(c, "Ep4", "");
        ep::<Ep5, A2, B0>(c, "Ep5", "gY-☃.ecb");
        ep_list(c, "e28", &LIST, false, &[("bdé", Key::for_path::<u64>("bdé"), Key::for_path::<E0>("bdé")), ("1Ze_e0b☃X-fY", Key::for_path::<i8>("1Ze_e0b☃X-fY"), Key::for_path::<(u8, A2)>("1Ze_e0b☃X-fY")), ("", Key::for_path::<i8>(""), Key::for_path::<E0>("")), ("gY-☃.ecb", Key::for_path::<A2>("gY-☃.ecb"), Key::for_path::<B0>("gY-☃.ecb"))], &[<u64 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA]);
    }
}
mod e29 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        omit_std = false;
        | EndpointTy | RequestTy | ResponseTy | Path | Cfg |
        | --- | --- | --- | --- | --- |
        | Ep0 | A0 | T0 | " Z féfcZ1éa" | cfg(all()) |
        | Ep1 | A4 | A8 | "XY00Y_9☃1☃9" | cfg(all()) |
        | Ep2 | i8 | A0 | "a" |  |
        | Ep3 | String | A8 | "X0éfd" | cfg(any()) |
        | Ep4 | T0 | E0 | "0gc" | cfg(not(all())) |
        | Ep5 | B0<'a> | u16 | " Yf" | cfg(any()) |
        | Ep6 | char | E1 | "Yce☃_ g/09ae f☃1X_☃f☃_Z☃ bg/dé/gfbX 0Z0ga0cY.9c☃/ aéYXZfeYb_bf☃é1YbYé e-e-g/_9cd0-Yéébdfa0aé☃9d9_Xc9é01/e/Yef9X-☃YcbYa_a01cf.c☃eéZ" | cfg(all()) |
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep0, A0, T0>(c, "Ep0", " Z féfcZ1éa");
        ep::<Ep1, A4, A8>(c, "Ep1", "XY00Y_9☃1☃9");
        ep::<Ep2, i8, A0>(c, "Ep2", "a");
        ep::<Ep6, char, E1>(c, "Ep6", "Yce☃_ g/09ae f☃1X_☃f☃_Z☃ bg/dé/gfbX 0Z0ga0cY.9c☃/ aéYXZfeYb_bf☃é1YbYé e-e-g/_9cd0-Yéébdfa0aé☃9d9_Xc9é01/e/Yef9X-☃YcbYa_a01cf.c☃eéZ");
        ep_list(c, "e29", &LIST, true, &[(" Z féfcZ1éa", Key::for_path::<A0>(" Z féfcZ1éa"), Key::for_path::<T0>(" Z féfcZ1éa")), ("XY00Y_9☃1☃9", Key::for_path::<A4>("XY00Y_9☃1☃9"), Key::for_path::<A8>("XY00Y_9☃1☃9")), ("a", Key::for_path::<i8>("a"), Key::for_path::<A0>("a")), ("Yce☃_ g/09ae f☃1X_☃f☃_Z☃ bg/dé/gfbX 0Z0ga0cY.9c☃/ aéYXZfeYb_bf☃é1YbYé e-e-g/_9cd0-Yéébdfa0aé☃9d9_Xc9é01/e/Yef9X-☃YcbYa_a01cf.c☃eéZ", Key::for_path::<char>("Yce☃_ g/09ae f☃1X_☃f☃_Z☃ bg/dé/gfbX 0Z0ga0cY.9c☃/ aéYXZfeYb_bf☃é1YbYé e-e-g/_9cd0-Yéébdfa0aé☃9d9_Xc9é01/e/Yef9X-☃YcbYa_a01cf.c☃eéZ"), Key::for_path::<E1>("Yce☃_ g/09ae f☃1X_☃f☃_Z☃ bg/dé/gfbX 0Z0ga0cY.9c☃/ aéYXZfeYb_bf☃é1YbYé e-e-g/_9cd0-Yéébdfa0aé☃9d9_Xc9é01/e/Yef9X-☃YcbYa_a01cf.c☃eéZ"))], &[<A0 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <char as Schema>::SCHEMA, <E1 as Schema>::SCHEMA]);
    }
}
mod e30 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        | EndpointTy | RequestTy | ResponseTy | Path | 
        | --- | --- | --- | --- | 
        | Ep0 | A4 | T0 | "X_fgcd/féa" | 
        | Ep1 | A3 | [A1; 2] | "YY☃X-YZc_é_-0119féb99 cccbg_9e1X☃d-g0-/c" | 
        | Ep2 | [u8; 4] | E1 | "fd.00d1-" | 
        | Ep3 | B1<'a> | B1<'b> | "_ g0Xga" | 
        | Ep4 | A5 | u8 | "bdeZZd/.d" | 
        | Ep5 | N0 | U0 | "/ce.f" | 
        | Ep6 | A7 | (u8, A2) | "- /Z" | 
        | Ep7 | B1<'a> | A8 | "gee☃Y" | 
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep0, A4, T0>(c, "Ep0", "X_fgcd/féa");
        ep::<Ep1, A3, [A1; 2]>(c, "Ep1", "YY☃X-YZc_é_-0119féb99 cccbg_9e1X☃d-g0-/c");
        ep::<Ep2, [u8; 4], E1>(c, "Ep2", "fd.00d1-");
        ep::<Ep3, B1, B1>(c, "Ep3", "_ g0Xga");
        ep::<Ep4, A5, u8>(c, "Ep4", "bdeZZd/.d");
        ep::<Ep5, N0, U0>(c, "Ep5", "/ce.f");
        ep::<Ep6, A7, (u8, A2)>(c, "Ep6", "- /Z");
        ep::<Ep7, B1, A8>(c, "Ep7", "gee☃Y");
        ep_list(c, "e30", &LIST, true, &[("X_fgcd/féa", Key::for_path::<A4>("X_fgcd/féa"), Key::for_path::<T0>("X_fgcd/féa")), ("YY☃X-YZc_é_-0119féb99 cccbg_9e1X☃d-g0-/c", Key::for_path::<A3>("YY☃X-YZc_é_-0119féb99 cccbg_9e1X☃d-g0-/c"), Key::for_path::<[A1; 2]>("YY☃X-YZc_é_-0119féb99 cccbg_9e1X☃d-g0-/c")), ("fd.00d1-", Key::for_path::<[u8; 4]>("fd.00d1-"), Key::for_path::<E1>("fd.00d1-")), ("_ g0Xga", Key::for_path::<B1>("_ g0Xga"), Key::for_path::<B1>("_ g0Xga")), ("bdeZZd/.d", Key::for_path::<A5>("bdeZZd/.d"), Key::for_path::<u8>("bdeZZd/.d")), ("/ce.f", Key::for_path::<N0>("/ce.f"), Key::for_path::<U0>("/ce.f")), ("- /Z", Key::for_path::<A7>("- /Z"), Key::for_path::<(u8, A2)>("- /Z")), ("gee☃Y", Key::for_path::<B1>("gee☃Y"), Key::for_path::<A8>("gee☃Y"))], &[<A4 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA]);
    }
}
mod e31 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        omit_std = true;
        | EndpointTy | RequestTy | ResponseTy | Path | 
        | --- | --- | --- | --- | 
        | Ep0 | u32 | B1<'b> | "-dfgé9/c-" | 
        | Ep1 | (u8, A2) | u8 | "_-/b/Z0gg" | 
        | Ep2 | i64 | u64 | "aa1Xaa☃" | 
        | Ep3 | E1 | B1<'b> | "" | 
        | Ep4 | (u8, A2) | B1<'b> | "Y/fc-Y_1eY" | 
        | Ep5 | B0<'a> | B0<'b> | "c_/11gYY/bddY_☃ef" | 
        | Ep6 | U0 | i64 | "cd_f☃-Z999" | 
        | Ep7 | A8 | u64 | "aé1aZd" | 
        | Ep8 | T0 | i8 | "f1/YYfgX" | 
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep0, u32, B1>(c, "Ep0", "-dfgé9/c-");
        ep::<Ep1, (u8, A2), u8>(c, "Ep1", "_-/b/Z0gg");
        ep::<Ep2, i64, u64>(c, "Ep2", "aa1Xaa☃");
        ep::<Ep3, E1, B1>(c, "Ep3", "");
        ep::<Ep4, (u8, A2), B1>(c, "Ep4", "Y/fc-Y_1eY");
        ep::<Ep5, B0, B0>(c, "Ep5", "c_/11gYY/bddY_☃ef");
        ep::<Ep6, U0, i64>(c, "Ep6", "cd_f☃-Z999");
        ep::<Ep7, A8, u64>(c, "Ep7", "aé1aZd");
        ep::<Ep8, T0, i8>(c, "Ep8", "f1/YYfgX");
        ep_list(c, "e31", &LIST, false, &[("-dfgé9/c-", Key::for_path::<u32>("-dfgé9/c-"), Key::for_path::<B1>("-dfgé9/c-")), ("_-/b/Z0gg", Key::for_path::<(u8, A2)>("_-/b/Z0gg"), Key::for_path::<u8>("_-/b/Z0gg")), ("aa1Xaa☃", Key::for_path::<i64>("aa1Xaa☃"), Key::for_path::<u64>("aa1Xaa☃")), ("", Key::for_path::<E1>(""), Key::for_path::<B1>("")), ("Y/fc-Y_1eY", Key::for_path::<(u8, A2)>("Y/fc-Y_1eY"), Key::for_path::<B1>("Y/fc-Y_1eY")), ("c_/11gYY/bddY_☃ef", Key::for_path::<B0>("c_/11gYY/bddY_☃ef"), Key::for_path::<B0>("c_/11gYY/bddY_☃ef")), ("cd_f☃-Z999", Key::for_path::<U0>("cd_f☃-Z999"), Key::for_path::<i64>("cd_f☃-Z999")), ("aé1aZd", Key::for_path::<A8>("aé1aZd"), Key::for_path::<u64>("aé1aZd")), ("f1/YYfgX", Key::for_path::<T0>("f1/YYfgX"), Key::for_path::<i8>("f1/YYfgX"))], &[<u32 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA]);
    }
}
mod e32 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        omit_std = false;
        | EndpointTy | RequestTy | ResponseTy | Path | 
        | --- | --- | --- | --- | 
        | Ep0 | N0 | A2 | "ee.ZZf☃d0X./cc0a_" | 
        | Ep1 | E1 | A6 | "a.gfZg1égYb9-.cae" | 
        | Ep2 | [u8; 4] | bool | " c-" | 
        | Ep3 | T0 | (A3, E0, u16) | "d._Z_-19 " | 
        | Ep4 | A0 | [u8; 4] | "☃Xde9a9YY b10d☃ c" | 
        | Ep5 | A7 | u32 | "gX-90_1X☃fé99é0db" | 
        | Ep6 | (u8, A2) | B1<'b> | "9Z9c/f/90cea0☃éfXéZ-Xf1d.bZf9ééaa00édY Z" | 
        | Ep7 | [u8; 4] | A5 | "" | 
        | Ep8 | u8 | A6 | "d9g bfXf1 1" | 
        | Ep9 | bool | u64 | "Yf0 " | 
        | Ep10 | A1 | B1<'b> | "_/☃_.9Y0X " | 
        | Ep11 | B1<'a> | char | "☃/eZZ" | 
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep0, N0, A2>(c, "Ep0", "ee.ZZf☃d0X./cc0a_");
        ep::<Ep1, E1, A6>(c, "Ep1", "a.gfZg1égYb9-.cae");
        ep::<Ep2, [u8; 4], bool>(c, "Ep2", " c-");
        ep::<Ep3, T0, (A3, E0, u16)>(c, "Ep3", "d._Z_-19 ");
        ep::<Ep4, A0, [u8; 4]>(c, "Ep4", "☃Xde9a9YY b10d☃ c");
        ep::<Ep5, A7, u32>(c, "Ep5", "gX-90_1X☃fé99é0db");
        ep::<Ep6, (u8, A2), B1>(c, "Ep6", "9Z9c/f/90cea0☃éfXéZ-Xf1d.bZf9ééaa00édY Z");
        ep::<Ep7, [u8; 4], A5>(c, "Ep7", "");
        ep::<Ep8, u8, A6>(c, "Ep8", "d9g bfXf1 1");
        ep::<Ep9, bool, u64>(c, "Ep9", "Yf0 ");
        ep::<Ep10, A1, B1>(c, "Ep10", "_/☃_.9Y0X ");
        ep::<Ep11, B1, char>(c, "Ep11", "☃/eZZ");
        ep_list(c, "e32", &LIST, true, &[("ee.ZZf☃d0X./cc0a_", Key::for_path::<N0>("ee.ZZf☃d0X./cc0a_"), Key::for_path::<A2>("ee.ZZf☃d0X./cc0a_")), ("a.gfZg1égYb9-.cae", Key::for_path::<E1>("a.gfZg1égYb9-.cae"), Key::for_path::<A6>("a.gfZg1égYb9-.cae")), (" c-", Key::for_path::<[u8; 4]>(" c-"), Key::for_path::<bool>(" c-")), ("d._Z_-19 ", Key::for_path::<T0>("d._Z_-19 "), Key::for_path::<(A3, E0, u16)>("d._Z_-19 ")), ("☃Xde9a9YY b10d☃ c", Key::for_path::<A0>("☃Xde9a9YY b10d☃ c"), Key::for_path::<[u8; 4]>("☃Xde9a9YY b10d☃ c")), ("gX-90_1X☃fé99é0db", Key::for_path::<A7>("gX-90_1X☃fé99é0db"), Key::for_path::<u32>("gX-90_1X☃fé99é0db")), ("9Z9c/f/90cea0☃éfXéZ-Xf1d.bZf9ééaa00édY Z", Key::for_path::<(u8, A2)>("9Z9c/f/90cea0☃éfXéZ-Xf1d.bZf9ééaa00édY Z"), Key::for_path::<B1>("9Z9c/f/90cea0☃éfXéZ-Xf1d.bZf9ééaa00édY Z")), ("", Key::for_path::<[u8; 4]>(""), Key::for_path::<A5>("")), ("d9g bfXf1 1", Key::for_path::<u8>("d9g bfXf1 1"), Key::for_path::<A6>("d9g bfXf1 1")), ("Yf0 ", Key::for_path::<bool>("Yf0 "), Key::for_path::<u64>("Yf0 ")), ("_/☃_.9Y0X ", Key::for_path::<A1>("_/☃_.9Y0X "), Key::for_path::<B1>("_/☃_.9Y0X ")), ("☃/eZZ", Key::for_path::<B1>("☃/eZZ"), Key::for_path::<char>("☃/eZZ"))], &[<N0 as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <char as Schema>::SCHEMA]);
    }
}
mod e33 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        | EndpointTy | RequestTy | ResponseTy | Path | Cfg |
        | --- | --- | --- | --- | --- |
        | Ep0 | A1 | N1 | "/" | cfg(not(any())) |
        | Ep1 | N1 | B1<'b> | "Y9aXbY_b-" | cfg(not(all())) |
        | Ep2 | f32 | A1 | "aXaeYa1" | cfg(feature = "no-such-feature") |
        | Ep3 | i64 | i8 | "_e--0☃dd__" |  |
        | Ep4 | B1<'a> | u32 | ".a_g☃aa11" | cfg(any()) |
        | Ep5 | T0 | E0 | "/_c .é" |  |
        | Ep6 | A0 | N0 | "g1Zf_gZfa" |  |
        | Ep7 | bool | A8 | "_é0Zééb11XYXf0-Z_" | cfg(not(all())) |
        | Ep8 | char | () | " /9/c//Z." |  |
        | Ep9 | (u8, A2) | U0 | " bé0.dXb .g" |  |
        | Ep10 | A7 | [u8; 4] | "f/_Y9" | cfg(feature = "no-such-feature") |
        | Ep11 | A0 | u16 | "YXX" |  |
        | Ep12 | u8 | u8 | "f._1" | cfg(all()) |
        | Ep13 | u32 | E1 | "/_-" |  |
        | Ep14 | A1 | A0 | "bY." | cfg(feature = "no-such-feature") |
        | Ep15 | i64 | N0 | "a-X é.-é_/☃" | cfg(not(all())) |
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep0, A1, N1>(c, "Ep0", "/");
        ep::<Ep3, i64, i8>(c, "Ep3", "_e--0☃dd__");
        ep::<Ep5, T0, E0>(c, "Ep5", "/_c .é");
        ep::<Ep6, A0, N0>(c, "Ep6", "g1Zf_gZfa");
        ep::<Ep8, char, ()>(c, "Ep8", " /9/c//Z.");
        ep::<Ep9, (u8, A2), U0>(c, "Ep9", " bé0.dXb .g");
        ep::<Ep11, A0, u16>(c, "Ep11", "YXX");
        ep::<Ep12, u8, u8>(c, "Ep12", "f._1");
        ep::<Ep13, u32, E1>(c, "Ep13", "/_-");
        ep_list(c, "e33", &LIST, true, &[("/", Key::for_path::<A1>("/"), Key::for_path::<N1>("/")), ("_e--0☃dd__", Key::for_path::<i64>("_e--0☃dd__"), Key::for_path::<i8>("_e--0☃dd__")), ("/_c .é", Key::for_path::<T0>("/_c .é"), Key::for_path::<E0>("/_c .é")), ("g1Zf_gZfa", Key::for_path::<A0>("g1Zf_gZfa"), Key::for_path::<N0>("g1Zf_gZfa")), (" /9/c//Z.", Key::for_path::<char>(" /9/c//Z."), Key::for_path::<()>(" /9/c//Z.")), (" bé0.dXb .g", Key::for_path::<(u8, A2)>(" bé0.dXb .g"), Key::for_path::<U0>(" bé0.dXb .g")), ("YXX", Key::for_path::<A0>("YXX"), Key::for_path::<u16>("YXX")), ("f._1", Key::for_path::<u8>("f._1"), Key::for_path::<u8>("f._1")), ("/_-", Key::for_path::<u32>("/_-"), Key::for_path::<E1>("/_-"))], &[<A1 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <char as Schema>::SCHEMA, <() as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <u16 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA]);
    }
}
mod e34 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        omit_std = true;
        | EndpointTy | RequestTy | ResponseTy | Path | Cfg |
        | --- | --- | --- | --- | --- |
        | Ep0 | A4 | String | "9-f☃fc f☃e" | cfg(not(all())) |
        | Ep1 | (A3, E0, u16) | E0 | "0eZ.egYc" |  |
        | Ep2 | E0 | f32 | "d0Y XdZZ_c9Zbdd1☃☃éa.01d9_9Y_fZc☃ebe0_-." | cfg(feature = "no-such-feature") |
        | Ep3 | [A1; 2] | [u8; 4] | "0cfg1/eX-_c9a9XZ9XY.Xb_0_b/Y.ZZ-ee/☃19.b" |  |
        | Ep4 | u8 | (A3, E0, u16) | "1Y9☃9" | cfg(not(all())) |
        | Ep5 | u8 | char | "f 9_/" |  |
        | Ep6 | u16 | u8 | ".éd☃a" | cfg(not(all())) |
        | Ep7 | U0 | A7 | "--☃-0Zd1c_e1a.b0Yb☃_éZ9☃ Yd/eZdb/9g0 ba9" |  |
        | Ep8 | [u8; 4] | () | "a9_Ya☃feZ " | cfg(any()) |
        | Ep9 | A0 | B1<'b> | "dg☃X0Z" | cfg(any()) |
        | Ep10 | B1<'a> | char | "g1fbcb/" | cfg(feature = "no-such-feature") |
        | Ep11 | N1 | B0<'b> | "aYeXf9/gX_Y19_./c.0fb1adY9ca/éX0Zgaf☃1 _" |  |
        | Ep12 | E0 | N1 | "_--Y.9e.a0bX" |  |
        | Ep13 | char | N0 | "_/ge_-.g1 X" | cfg(not(any())) |
        | Ep14 | f32 | B1<'b> | "deXc.f☃é1☃ .-9g19" |  |
        | Ep15 | U0 | T0 | "11cX  ." | cfg(feature = "no-such-feature") |
        | Ep16 | E0 | u64 | "☃_" |  |
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep1, (A3, E0, u16), E0>(c, "Ep1", "0eZ.egYc");
        ep::<Ep3, [A1; 2], [u8; 4]>(c, "Ep3", "0cfg1/eX-_c9a9XZ9XY.Xb_0_b/Y.ZZ-ee/☃19.b");
        ep::<Ep5, u8, char>(c, "Ep5", "f 9_/");
        ep::<Ep7, U0, A7>(c, "Ep7", "--☃-0Zd1c_e1a.b0Yb☃_éZ9☃ Yd/eZdb/9g0 ba9");
        ep::<Ep11, N1, B0>(c, "Ep11", "aYeXf9/gX_Y19_./c.0fb1adY9ca/éX0Zgaf☃1 _");
        ep::<Ep12, E0, N1>(c, "Ep12", "_--Y.9e.a0bX");
        ep::<Ep13, char, N0>(c, "Ep13", "_/ge_-.g1 X");
        ep::<Ep14, f32, B1>(c, "Ep14", "deXc.f☃é1☃ .-9g19");
        ep::<Ep16, E0, u64>(c, "Ep16", "☃_");
        ep_list(c, "e34", &LIST, false, &[("0eZ.egYc", Key::for_path::<(A3, E0, u16)>("0eZ.egYc"), Key::for_path::<E0>("0eZ.egYc")), ("0cfg1/eX-_c9a9XZ9XY.Xb_0_b/Y.ZZ-ee/☃19.b", Key::for_path::<[A1; 2]>("0cfg1/eX-_c9a9XZ9XY.Xb_0_b/Y.ZZ-ee/☃19.b"), Key::for_path::<[u8; 4]>("0cfg1/eX-_c9a9XZ9XY.Xb_0_b/Y.ZZ-ee/☃19.b")), ("f 9_/", Key::for_path::<u8>("f 9_/"), Key::for_path::<char>("f 9_/")), ("--☃-0Zd1c_e1a.b0Yb☃_éZ9☃ Yd/eZdb/9g0 ba9", Key::for_path::<U0>("--☃-0Zd1c_e1a.b0Yb☃_éZ9☃ Yd/eZdb/9g0 ba9"), Key::for_path::<A7>("--☃-0Zd1c_e1a.b0Yb☃_éZ9☃ Yd/eZdb/9g0 ba9")), ("aYeXf9/gX_Y19_./c.0fb1adY9ca/éX0Zgaf☃1 _", Key::for_path::<N1>("aYeXf9/gX_Y19_./c.0fb1adY9ca/éX0Zgaf☃1 _"), Key::for_path::<B0>("aYeXf9/gX_Y19_./c.0fb1adY9ca/éX0Zgaf☃1 _")), ("_--Y.9e.a0bX", Key::for_path::<E0>("_--Y.9e.a0bX"), Key::for_path::<N1>("_--Y.9e.a0bX")), ("_/ge_-.g1 X", Key::for_path::<char>("_/ge_-.g1 X"), Key::for_path::<N0>("_/ge_-.g1 X")), ("deXc.f☃é1☃ .-9g19", Key::for_path::<f32>("deXc.f☃é1☃ .-9g19"), Key::for_path::<B1>("deXc.f☃é1☃ .-9g19")), ("☃_", Key::for_path::<E0>("☃_"), Key::for_path::<u64>("☃_"))], &[<(A3, E0, u16) as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <char as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <char as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA]);
    }
}
mod e35 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        omit_std = false;
        | EndpointTy | RequestTy | ResponseTy | Path | Cfg |
        | --- | --- | --- | --- | --- |
        | Ep0 | A0 | B1<'b> | ".f9" |  |
        | Ep1 | char | u64 | "XX X" |  |
        | Ep2 | u8 | (u8, A2) | ".-☃Xbdd" |  |
        | Ep3 | bool | B0<'b> | "b_199c0a-e9Z11ab9" |  |
        | Ep4 | f32 | U0 | "" | cfg(any()) |
        | Ep5 | B1<'a> | E1 | "ZXXff☃.0é 0_" | cfg(all()) |
        | Ep6 | f32 | bool | "9é_d .éZéZc9g-e-dg_d_Y.g☃.d a.☃-/béXé19Y_/.-X YY_cZYfXc-faé1XgcYX9égc-☃. bg/X-Yédffdf☃90bé1☃☃-  09a9e ☃é-1_1gZaéaZ99be/Za99dbc..c/" |  |
        | Ep7 | (A3, E0, u16) | U0 | "é0a.caXZ☃0c_.9Yfg" | cfg(not(any())) |
        | Ep8 | i8 | [A1; 2] | "/d/d." | cfg(any()) |
        | Ep9 | A0 | N0 | "e/- ZfeZeXZféfb.d0fffXg0/Y_dg/b0-..0é.9g1Y-9-g. X0Z010e.9YcZ-eéacX_ZX-.a/☃ef/éaeé.99a_.c--000é0☃Xé☃9cégXcbXYffdfbc☃.9_9aYc_éé☃fbfé" |  |
        | Ep10 | U0 | [u8; 4] | "f-e☃-. 1Yeée0Z☃c/b1éZ_-éf-é-/☃fYY1-e1☃1Y" |  |
        | Ep11 | (u8, A2) | B1<'b> | "cX9ce.fZ" | cfg(any()) |
        | Ep12 | B0<'a> | [u8; 4] | "Zéae1e0YZ0Zb0Y☃1.e0_XZ0b/-Z9.Zf.☃1dcé1b99/1e_0/g1-g0Xf.9Xé10X☃XagccYc-de.9YYZ_f0bXeYc1agd./aea0.☃g_.0ZéX-bbZ./bZf.é_gX./d☃cb-10gg-" | cfg(feature = "no-such-feature") |
        | Ep13 | [u8; 4] | N0 | "abed0 Y0Y9Ze" | cfg(not(all())) |
        | Ep14 | A6 | f32 | "a " | cfg(feature = "no-such-feature") |
        | Ep15 | f32 | i64 | "1 X_c-☃Y09aZa-gXda.eZ1Xé-XXada._cZéfYcYb" |  |
        | Ep16 | E0 | [[u8; 2]; 3] | "-b fYZ  cXc1" |  |
        | Ep17 | i64 | u32 | "XggX_Y 0-.-/" |  |
        | Ep18 | i64 | U0 | "YZ1 -d1/.a" | cfg(all()) |
        | Ep19 | A8 | A4 | "Z" |  |
        | Ep20 | B1<'a> | E1 | "f1a_ee0Z." | cfg(feature = "no-such-feature") |
        | Ep21 | u32 | [[u8; 2]; 3] | "aY☃" | cfg(not(any())) |
        | Ep22 | A5 | U0 | "YdY-☃-gbfcZ.☃0 1aafbgeaa0Z1_-Z X.cX_☃_aX-.-1b e/X.☃ecZbc☃1d-. XY☃9/_b/Ya☃.9gédX/Y_/.g-c9Xbgae.Y./c d0 _gabdX  XgXY-._._Xa_-0 e  /1" | cfg(feature = "no-such-feature") |
        | Ep23 | A7 | [[u8; 2]; 3] | "YYb1dgecé.ba" |  |
        | Ep24 | A2 | String | "-" |  |
        | Ep25 | N1 | E1 | "g1c" | cfg(all()) |
        | Ep26 | f32 | char | "-Z0/0/_e0YZb" | cfg(feature = "no-such-feature") |
        | Ep27 | A5 | char | "1. -Xd" | cfg(feature = "no-such-feature") |
        | Ep28 | A6 | U0 | "☃9a0aéX-d-b" | cfg(any()) |
        | Ep29 | [u8; 4] | A8 | "ac /b.0/.-./-c-é.. 1-0d.eec Z0 bZZYg/é-0ecXYYa9dX☃-Y1é/c -g0Y_ecedéYbg_g//_c_ba_.ededf.é.Ybe--0cZ01c-9é._1fd9b1/f-_a9édd-é//0_9a19" |  |
        | Ep30 | () | bool | "..XZf0.be/fX" |  |
        | Ep31 | A5 | i64 | "Zbéd-" | cfg(feature = "no-such-feature") |
        | Ep32 | N0 | () | "ZX☃ Z" | cfg(any()) |
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep0, A0, B1>(c, "Ep0", ".f9");
        ep::<Ep1, char, u64>(c, "Ep1", "XX X");
        ep::<Ep2, u8, (u8, A2)>(c, "Ep2", ".-☃Xbdd");
        ep::<Ep3, bool, B0>(c, "Ep3", "b_199c0a-e9Z11ab9");
        ep::<Ep5, B1, E1>(c, "Ep5", "ZXXff☃.0é 0_");
        ep::<Ep6, f32, bool>(c, "Ep6", "9é_d .éZéZc9g-e-dg_d_Y.g☃.d a.☃-/béXé19Y_/.-X YY_cZYfXc-faé1XgcYX9égc-☃. bg/X-Yédffdf☃90bé1☃☃-  09a9e ☃é-1_1gZaéaZ99be/Za99dbc..c/");
        ep::<Ep7, (A3, E0, u16), U0>(c, "Ep7", "é0a.caXZ☃0c_.9Yfg");
        ep::<Ep9, A0, N0>(c, "Ep9", "e/- ZfeZeXZféfb.d0fffXg0/Y_dg/b0-..0é.9g1Y-9-g. X0Z010e.9YcZ-eéacX_ZX-.a/☃ef/éaeé.99a_.c--000é0☃Xé☃9cégXcbXYffdfbc☃.9_9aYc_éé☃fbfé");
        ep::<Ep10, U0, [u8; 4]>(c, "Ep10", "f-e☃-. 1Yeée0Z☃c/b1éZ_-éf-é-/☃fYY1-e1☃1Y");
        ep::<Ep15, f32, i64>(c, "Ep15", "1 X_c-☃Y09aZa-gXda.eZ1Xé-XXada._cZéfYcYb");
        ep::<Ep16, E0, [[u8; 2]; 3]>(c, "Ep16", "-b fYZ  cXc1");
        ep::<Ep17, i64, u32>(c, "Ep17", "XggX_Y 0-.-/");
        ep::<Ep18, i64, U0>(c, "Ep18", "YZ1 -d1/.a");
        ep::<Ep19, A8, A4>(c, "Ep19", "Z");
        ep::<Ep21, u32, [[u8; 2]; 3]>(c, "Ep21", "aY☃");
        ep::<Ep23, A7, [[u8; 2]; 3]>(c, "Ep23", "YYb1dgecé.ba");
        ep::<Ep24, A2, String>(c, "Ep24", "-");
        ep::<Ep25, N1, E1>(c, "Ep25", "g1c");
        ep::<Ep29, [u8; 4], A8>(c, "Ep29", "ac /b.0/.-./-c-é.. 1-0d.eec Z0 bZZYg/é-0ecXYYa9dX☃-Y1é/c -g0Y_ecedéYbg_g//_c_ba_.ededf.é.Ybe--0cZ01c-9é._1fd9b1/f-_a9édd-é//0_9a19");
        ep::<Ep30, (), bool>(c, "Ep30", "..XZf0.be/fX");
        ep_list(c, "e35", &LIST, true, &[(".f9", Key::for_path::<A0>(".f9"), Key::for_path::<B1>(".f9")), ("XX X", Key::for_path::<char>("XX X"), Key::for_path::<u64>("XX X")), (".-☃Xbdd", Key::for_path::<u8>(".-☃Xbdd"), Key::for_path::<(u8, A2)>(".-☃Xbdd")), ("b_199c0a-e9Z11ab9", Key::for_path::<bool>("b_199c0a-e9Z11ab9"), Key::for_path::<B0>("b_199c0a-e9Z11ab9")), ("ZXXff☃.0é 0_", Key::for_path::<B1>("ZXXff☃.0é 0_"), Key::for_path::<E1>("ZXXff☃.0é 0_")), ("9é_d .éZéZc9g-e-dg_d_Y.g☃.d a.☃-/béXé19Y_/.-X YY_cZYfXc-faé1XgcYX9égc-☃. bg/X-Yédffdf☃90bé1☃☃-  09a9e ☃é-1_1gZaéaZ99be/Za99dbc..c/", Key::for_path::<f32>("9é_d .éZéZc9g-e-dg_d_Y.g☃.d a.☃-/béXé19Y_/.-X YY_cZYfXc-faé1XgcYX9égc-☃. bg/X-Yédffdf☃90bé1☃☃-  09a9e ☃é-1_1gZaéaZ99be/Za99dbc..c/"), Key::for_path::<bool>("9é_d .éZéZc9g-e-dg_d_Y.g☃.d a.☃-/béXé19Y_/.-X YY_cZYfXc-faé1XgcYX9égc-☃. bg/X-Yédffdf☃90bé1☃☃-  09a9e ☃é-1_1gZaéaZ99be/Za99dbc..c/")), ("é0a.caXZ☃0c_.9Yfg", Key::for_path::<(A3, E0, u16)>("é0a.caXZ☃0c_.9Yfg"), Key::for_path::<U0>("é0a.caXZ☃0c_.9Yfg")), ("e/- ZfeZeXZféfb.d0fffXg0/Y_dg/b0-..0é.9g1Y-9-g. X0Z010e.9YcZ-eéacX_ZX-.a/☃ef/éaeé.99a_.c--000é0☃Xé☃9cégXcbXYffdfbc☃.9_9aYc_éé☃fbfé", Key::for_path::<A0>("e/- ZfeZeXZféfb.d0fffXg0/Y_dg/b0-..0é.9g1Y-9-g. X0Z010e.9YcZ-eéacX_ZX-.a/☃ef/éaeé.99a_.c--000é0☃Xé☃9cégXcbXYffdfbc☃.9_9aYc_éé☃fbfé"), Key::for_path::<N0>("e/- ZfeZeXZféfb.d0fffXg0/Y_dg/b0-..0é.9g1Y-9-g. X0Z010e.9YcZ-eéacX_ZX-.a/☃ef/éaeé.99a_.c--000é0☃Xé☃9cégXcbXYffdfbc☃.9_9aYc_éé☃fbfé")), ("f-e☃-. 1Yeée0Z☃c/b1éZ_-éf-é-/☃fYY1-e1☃1Y", Key::for_path::<U0>("f-e☃-. 1Yeée0Z☃c/b1éZ_-éf-é-/☃fYY1-e1☃1Y"), Key::for_path::<[u8; 4]>("f-e☃-. 1Yeée0Z☃c/b1éZ_-éf-é-/☃fYY1-e1☃1Y")), ("1 X_c-☃Y09aZa-gXda.eZ1Xé-XXada._cZéfYcYb", Key::for_path::<f32>("1 X_c-☃Y09aZa-gXda.eZ1Xé-XXada._cZéfYcYb"), Key::for_path::<i64>("1 X_c-☃Y09aZa-gXda.eZ1Xé-XXada._cZéfYcYb")), ("-b fYZ  cXc1", Key::for_path::<E0>("-b fYZ  cXc1"), Key::for_path::<[[u8; 2]; 3]>("-b fYZ  cXc1")), ("XggX_Y 0-.-/", Key::for_path::<i64>("XggX_Y 0-.-/"), Key::for_path::<u32>("XggX_Y 0-.-/")), ("YZ1 -d1/.a", Key::for_path::<i64>("YZ1 -d1/.a"), Key::for_path::<U0>("YZ1 -d1/.a")), ("Z", Key::for_path::<A8>("Z"), Key::for_path::<A4>("Z")), ("aY☃", Key::for_path::<u32>("aY☃"), Key::for_path::<[[u8; 2]; 3]>("aY☃")), ("YYb1dgecé.ba", Key::for_path::<A7>("YYb1dgecé.ba"), Key::for_path::<[[u8; 2]; 3]>("YYb1dgecé.ba")), ("-", Key::for_path::<A2>("-"), Key::for_path::<String>("-")), ("g1c", Key::for_path::<N1>("g1c"), Key::for_path::<E1>("g1c")), ("ac /b.0/.-./-c-é.. 1-0d.eec Z0 bZZYg/é-0ecXYYa9dX☃-Y1é/c -g0Y_ecedéYbg_g//_c_ba_.ededf.é.Ybe--0cZ01c-9é._1fd9b1/f-_a9édd-é//0_9a19", Key::for_path::<[u8; 4]>("ac /b.0/.-./-c-é.. 1-0d.eec Z0 bZZYg/é-0ecXYYa9dX☃-Y1é/c -g0Y_ecedéYbg_g//_c_ba_.ededf.é.Ybe--0cZ01c-9é._1fd9b1/f-_a9édd-é//0_9a19"), Key::for_path::<A8>("ac /b.0/.-./-c-é.. 1-0d.eec Z0 bZZYg/é-0ecXYYa9dX☃-Y1é/c -g0Y_ecedéYbg_g//_c_ba_.ededf.é.Ybe--0cZ01c-9é._1fd9b1/f-_a9édd-é//0_9a19")), ("..XZf0.be/fX", Key::for_path::<()>("..XZf0.be/fX"), Key::for_path::<bool>("..XZf0.be/fX"))], &[<A0 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <char as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <bool as Schema>::SCHEMA]);
    }
}
mod t0 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToClient;
        | TopicTy | MessageTy | Path | 
        | --- | --- | --- | 

    }
    pub fn check(c: &mut Ctx) {
        
        tp_list(c, "t0", &LIST, TopicDirection::ToClient, true, &[], &[]);
    }
}
mod t1 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToClient;
        omit_std = true;
        | TopicTy | MessageTy | Path | 
        | --- | --- | --- | 

    }
    pub fn check(c: &mut Ctx) {
        
        tp_list(c, "t1", &LIST, TopicDirection::ToClient, false, &[], &[]);
    }
}
mod t2 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToServer;
        omit_std = false;
        | TopicTy | MessageTy | Path | 
        | --- | --- | --- | 
        | Tp0 | [A1; 2] | "bc-9.9a☃-c-Z" | 
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp0, [A1; 2]>(c, "Tp0", "bc-9.9a☃-c-Z");
        tp_list(c, "t2", &LIST, TopicDirection::ToServer, true, &[("bc-9.9a☃-c-Z", Key::for_path::<[A1; 2]>("bc-9.9a☃-c-Z"))], &[<[A1; 2] as Schema>::SCHEMA]);
    }
}
mod t3 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToServer;
        | TopicTy | MessageTy | Path | Cfg |
        | --- | --- | --- | --- |
        | Tp0 | bool | "dYcg eY/Z/g__fb☃é19fbdd.XZe-☃-Y 1d 0.é/1e_c1-0_-cdcZ-b9dbXb_9/XY☃ZZZYc1X_dgf11dY.c☃c/_bYe0XdX9YgXgc _YdafedXd9/.Yé ☃/☃g1☃e1a☃de-a0" | cfg(all()) |
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp0, bool>(c, "Tp0", "dYcg eY/Z/g__fb☃é19fbdd.XZe-☃-Y 1d 0.é/1e_c1-0_-cdcZ-b9dbXb_9/XY☃ZZZYc1X_dgf11dY.c☃c/_bYe0XdX9YgXgc _YdafedXd9/.Yé ☃/☃g1☃e1a☃de-a0");
        tp_list(c, "t3", &LIST, TopicDirection::ToServer, true, &[("dYcg eY/Z/g__fb☃é19fbdd.XZe-☃-Y 1d 0.é/1e_c1-0_-cdcZ-b9dbXb_9/XY☃ZZZYc1X_dgf11dY.c☃c/_bYe0XdX9YgXgc _YdafedXd9/.Yé ☃/☃g1☃e1a☃de-a0", Key::for_path::<bool>("dYcg eY/Z/g__fb☃é19fbdd.XZe-☃-Y 1d 0.é/1e_c1-0_-cdcZ-b9dbXb_9/XY☃ZZZYc1X_dgf11dY.c☃c/_bYe0XdX9YgXgc _YdafedXd9/.Yé ☃/☃g1☃e1a☃de-a0"))], &[<bool as Schema>::SCHEMA]);
    }
}
mod t4 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToClient;
        omit_std = true;
        | TopicTy | MessageTy | Path | Cfg |
        | --- | --- | --- | --- |
        | Tp0 | A2 | "g" | cfg(not(any())) |
        | Tp1 | i8 | "X_" |  |
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp0, A2>(c, "Tp0", "g");
        tp::<Tp1, i8>(c, "Tp1", "X_");
        tp_list(c, "t4", &LIST, TopicDirection::ToClient, false, &[("g", Key::for_path::<A2>("g")), ("X_", Key::for_path::<i8>("X_"))], &[<A2 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA]);
    }
}
mod t5 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToClient;
        omit_std = false;
        | TopicTy | MessageTy | Path | Cfg |
        | --- | --- | --- | --- |
        | Tp0 | A3 | "c" | cfg(all()) |
        | Tp1 | A6 | "f" |  |
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp0, A3>(c, "Tp0", "c");
        tp::<Tp1, A6>(c, "Tp1", "f");
        tp_list(c, "t5", &LIST, TopicDirection::ToClient, true, &[("c", Key::for_path::<A3>("c")), ("f", Key::for_path::<A6>("f"))], &[<A3 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA]);
    }
}
mod t6 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToServer;
        | TopicTy | MessageTy | Path | 
        | --- | --- | --- | 
        | Tp0 | [[u8; 2]; 3] | "c_ " | 
        | Tp1 | T0 | "-Ygéé-☃g" | 
        | Tp2 | U0 | "" | 
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp0, [[u8; 2]; 3]>(c, "Tp0", "c_ ");
        tp::<Tp1, T0>(c, "Tp1", "-Ygéé-☃g");
        tp::<Tp2, U0>(c, "Tp2", "");
        tp_list(c, "t6", &LIST, TopicDirection::ToServer, true, &[("c_ ", Key::for_path::<[[u8; 2]; 3]>("c_ ")), ("-Ygéé-☃g", Key::for_path::<T0>("-Ygéé-☃g")), ("", Key::for_path::<U0>(""))], &[<[[u8; 2]; 3] as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA]);
    }
}
mod t7 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToServer;
        omit_std = true;
        | TopicTy | MessageTy | Path | 
        | --- | --- | --- | 
        | Tp0 | A8 | "ae-" | 
        | Tp1 | B0<'a> | "XeYadf0/" | 
        | Tp2 | (A3, E0, u16) | "" | 
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp0, A8>(c, "Tp0", "ae-");
        tp::<Tp1, B0>(c, "Tp1", "XeYadf0/");
        tp::<Tp2, (A3, E0, u16)>(c, "Tp2", "");
        tp_list(c, "t7", &LIST, TopicDirection::ToServer, false, &[("ae-", Key::for_path::<A8>("ae-")), ("XeYadf0/", Key::for_path::<B0>("XeYadf0/")), ("", Key::for_path::<(A3, E0, u16)>(""))], &[<A8 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA]);
    }
}
mod t8 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToClient;
        omit_std = false;
        | TopicTy | MessageTy | Path | 
        | --- | --- | --- | 
        | Tp0 | B0<'a> | ".é☃X☃b0g " | 
        | Tp1 | f32 | "gée9c0 dZg_ZdYXé9" | 
        | Tp2 | A7 | "a.X/1gc/" | 
        | Tp3 | (A3, E0, u16) | "09_" | 
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp0, B0>(c, "Tp0", ".é☃X☃b0g ");
        tp::<Tp1, f32>(c, "Tp1", "gée9c0 dZg_ZdYXé9");
        tp::<Tp2, A7>(c, "Tp2", "a.X/1gc/");
        tp::<Tp3, (A3, E0, u16)>(c, "Tp3", "09_");
        tp_list(c, "t8", &LIST, TopicDirection::ToClient, true, &[(".é☃X☃b0g ", Key::for_path::<B0>(".é☃X☃b0g ")), ("gée9c0 dZg_ZdYXé9", Key::for_path::<f32>("gée9c0 dZg_ZdYXé9")), ("a.X/1gc/", Key::for_path::<A7>("a.X/1gc/")), ("09_", Key::for_path::<(A3, E0, u16)>("09_"))], &[<B0 as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA]);
    }
}
mod t9 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToClient;
        | TopicTy | MessageTy | Path | Cfg |
        | --- | --- | --- | --- |
        | Tp0 | B1<'a> | "10/" |  |
        | Tp1 | [u8; 4] | "cX9" |  |
        | Tp2 | N1 | "ee-édc.-X" |  |
        | Tp3 | B0<'a> | "XdbcYg9écf" | cfg(any()) |
        | Tp4 | A6 | "" | cfg(not(all())) |
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp0, B1>(c, "Tp0", "10/");
        tp::<Tp1, [u8; 4]>(c, "Tp1", "cX9");
        tp::<Tp2, N1>(c, "Tp2", "ee-édc.-X");
        tp_list(c, "t9", &LIST, TopicDirection::ToClient, true, &[("10/", Key::for_path::<B1>("10/")), ("cX9", Key::for_path::<[u8; 4]>("cX9")), ("ee-édc.-X", Key::for_path::<N1>("ee-édc.-X"))], &[<B1 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <N1 as Schema>::SCHEMA]);
    }
}
mod t10 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToServer;
        omit_std = true;
        | TopicTy | MessageTy | Path | Cfg |
        | --- | --- | --- | --- |
        | Tp0 | N1 | "e0-X X_ad" | cfg(all()) |
        | Tp1 | i64 | "cc//9éé0/1Y" |  |
        | Tp2 | f32 | "c☃0 bc/" | cfg(any()) |
        | Tp3 | B1<'a> | "g" |  |
        | Tp4 | A8 | "gZe" |  |
        | Tp5 | u64 | "Z/a0.0d9Z.☃0" | cfg(feature = "no-such-feature") |
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp0, N1>(c, "Tp0", "e0-X X_ad");
        tp::<Tp1, i64>(c, "Tp1", "cc//9éé0/1Y");
        tp::<Tp3, B1>(c, "Tp3", "g");
        tp::<Tp4, A8>(c, "Tp4", "gZe");
        tp_list(c, "t10", &LIST, TopicDirection::ToServer, false, &[("e0-X X_ad", Key::for_path::<N1>("e0-X X_ad")), ("cc//9éé0/1Y", Key::for_path::<i64>("cc//9éé0/1Y")), ("g", Key::for_path::<B1>("g")), ("gZe", Key::for_path::<A8>("gZe"))], &[<N1 as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA]);
    }
}
mod t11 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToServer;
        omit_std = false;
        | TopicTy | MessageTy | Path | Cfg |
        | --- | --- | --- | --- |
        | Tp0 | A7 | ".gd/Y-9." | cfg(any()) |
        | Tp1 | B1<'a> | "XZ_aa0☃" |  |
        | Tp2 | B1<'a> | "g_bd.9Zéaa99" | cfg(feature = "no-such-feature") |
        | Tp3 | B0<'a> | "é9-YZ" |  |
        | Tp4 | u64 | "_/g_e01Xé1-e" |  |
        | Tp5 | A5 | "bfé9Z X-..é0" |  |
        | Tp6 | A3 | ".ece00☃.e_ YaeefcecXdcbb09ded-1 .-e0X19-" | cfg(any()) |
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp1, B1>(c, "Tp1", "XZ_aa0☃");
        tp::<Tp3, B0>(c, "Tp3", "é9-YZ");
        tp::<Tp4, u64>(c, "Tp4", "_/g_e01Xé1-e");
        tp::<Tp5, A5>(c, "Tp5", "bfé9Z X-..é0");
        tp_list(c, "t11", &LIST, TopicDirection::ToServer, true, &[("XZ_aa0☃", Key::for_path::<B1>("XZ_aa0☃")), ("é9-YZ", Key::for_path::<B0>("é9-YZ")), ("_/g_e01Xé1-e", Key::for_path::<u64>("_/g_e01Xé1-e")), ("bfé9Z X-..é0", Key::for_path::<A5>("bfé9Z X-..é0"))], &[<B1 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA]);
    }
}
mod t12 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToClient;
        | TopicTy | MessageTy | Path | 
        | --- | --- | --- | 
        | Tp0 | E1 | "éZ" | 
        | Tp1 | B0<'a> | "Z_é9c0☃d." | 
        | Tp2 | B0<'a> | "fYdf0Xfg /" | 
        | Tp3 | T0 | "☃0Zb/Xea0" | 
        | Tp4 | bool | " é/gZg9" | 
        | Tp5 | [u8; 4] | "9 XZZ" | 
        | Tp6 | [[u8; 2]; 3] | "0" | 
        | Tp7 | A8 | "9d Zéé☃X009aX0b0X/cd ébXeaéYbc Z Z_Y9d1f" | 
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp0, E1>(c, "Tp0", "éZ");
        tp::<Tp1, B0>(c, "Tp1", "Z_é9c0☃d.");
        tp::<Tp2, B0>(c, "Tp2", "fYdf0Xfg /");
        tp::<Tp3, T0>(c, "Tp3", "☃0Zb/Xea0");
        tp::<Tp4, bool>(c, "Tp4", " é/gZg9");
        tp::<Tp5, [u8; 4]>(c, "Tp5", "9 XZZ");
        tp::<Tp6, [[u8; 2]; 3]>(c, "Tp6", "0");
        tp::<Tp7, A8>(c, "Tp7", "9d Zéé☃X009aX0b0X/cd ébXeaéYbc Z Z_Y9d1f");
        tp_list(c, "t12", &LIST, TopicDirection::ToClient, true, &[("éZ", Key::for_path::<E1>("éZ")), ("Z_é9c0☃d.", Key::for_path::<B0>("Z_é9c0☃d.")), ("fYdf0Xfg /", Key::for_path::<B0>("fYdf0Xfg /")), ("☃0Zb/Xea0", Key::for_path::<T0>("☃0Zb/Xea0")), (" é/gZg9", Key::for_path::<bool>(" é/gZg9")), ("9 XZZ", Key::for_path::<[u8; 4]>("9 XZZ")), ("0", Key::for_path::<[[u8; 2]; 3]>("0")), ("9d Zéé☃X009aX0b0X/cd ébXeaéYbc Z Z_Y9d1f", Key::for_path::<A8>("9d Zéé☃X009aX0b0X/cd ébXeaéYbc Z Z_Y9d1f"))], &[<E1 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <A8 as Schema>::SCHEMA]);
    }
}
mod t13 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToClient;
        omit_std = true;
        | TopicTy | MessageTy | Path | 
        | --- | --- | --- | 
        | Tp0 | u16 | "" | 
        | Tp1 | A6 | "Z/aa-X9a_" | 
        | Tp2 | A8 | "gfX /-/.ZcZ" | 
        | Tp3 | E1 | "9☃/c 1g_/" | 
        | Tp4 | A5 | "-c._daYé_.Zb1b/Zc cYé_/Yf cY☃--Zcd-b-bX1" | 
        | Tp5 | A8 | " " | 
        | Tp6 | char | ".e/1e" | 
        | Tp7 | A3 | "1" | 
        | Tp8 | bool | "e9-d9_Zf" | 
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp0, u16>(c, "Tp0", "");
        tp::<Tp1, A6>(c, "Tp1", "Z/aa-X9a_");
        tp::<Tp2, A8>(c, "Tp2", "gfX /-/.ZcZ");
        tp::<Tp3, E1>(c, "Tp3", "9☃/c 1g_/");
        tp::<Tp4, A5>(c, "Tp4", "-c._daYé_.Zb1b/Zc cYé_/Yf cY☃--Zcd-b-bX1");
        tp::<Tp5, A8>(c, "Tp5", " ");
        tp::<Tp6, char>(c, "Tp6", ".e/1e");
        tp::<Tp7, A3>(c, "Tp7", "1");
        tp::<Tp8, bool>(c, "Tp8", "e9-d9_Zf");
        tp_list(c, "t13", &LIST, TopicDirection::ToClient, false, &[("", Key::for_path::<u16>("")), ("Z/aa-X9a_", Key::for_path::<A6>("Z/aa-X9a_")), ("gfX /-/.ZcZ", Key::for_path::<A8>("gfX /-/.ZcZ")), ("9☃/c 1g_/", Key::for_path::<E1>("9☃/c 1g_/")), ("-c._daYé_.Zb1b/Zc cYé_/Yf cY☃--Zcd-b-bX1", Key::for_path::<A5>("-c._daYé_.Zb1b/Zc cYé_/Yf cY☃--Zcd-b-bX1")), (" ", Key::for_path::<A8>(" ")), (".e/1e", Key::for_path::<char>(".e/1e")), ("1", Key::for_path::<A3>("1")), ("e9-d9_Zf", Key::for_path::<bool>("e9-d9_Zf"))], &[<u16 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <char as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <bool as Schema>::SCHEMA]);
    }
}
mod t14 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToServer;
        omit_std = false;
        | TopicTy | MessageTy | Path | 
        | --- | --- | --- | 
        | Tp0 | () | "0-bcbcg.b.0/" | 
        | Tp1 | u8 | "efZZ0-X" | 
        | Tp2 | bool | "09-Y__/X/" | 
        | Tp3 | B1<'a> | "" | 
        | Tp4 | (A3, E0, u16) | "1b1_-_b." | 
        | Tp5 | [[u8; 2]; 3] | "-gX0Z0-☃-f9gg g1cff/eb Yé..gfZa☃Yg9YbXZa1_.Y/☃d1Z_Y1-- ☃X/a9_deXdg1☃-eceX☃cfecc gZ/eé Zcc☃b0f_af-dgecefg1 cb_ agg9..11cf/9é._Y0-._" | 
        | Tp6 | A3 | "Y//Yc" | 
        | Tp7 | u64 | "c1a-10.☃e" | 
        | Tp8 | (A3, E0, u16) | "-gé99é0" | 
        | Tp9 | A5 | "☃f0☃ " | 
        | Tp10 | U0 | "109" | 
        | Tp11 | A1 | "9e01-" | 
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp0, ()>(c, "Tp0", "0-bcbcg.b.0/");
        tp::<Tp1, u8>(c, "Tp1", "efZZ0-X");
        tp::<Tp2, bool>(c, "Tp2", "09-Y__/X/");
        tp::<Tp3, B1>(c, "Tp3", "");
        tp::<Tp4, (A3, E0, u16)>(c, "Tp4", "1b1_-_b.");
        tp::<Tp5, [[u8; 2]; 3]>(c, "Tp5", "-gX0Z0-☃-f9gg g1cff/eb Yé..gfZa☃Yg9YbXZa1_.Y/☃d1Z_Y1-- ☃X/a9_deXdg1☃-eceX☃cfecc gZ/eé Zcc☃b0f_af-dgecefg1 cb_ agg9..11cf/9é._Y0-._");
        tp::<Tp6, A3>(c, "Tp6", "Y//Yc");
        tp::<Tp7, u64>(c, "Tp7", "c1a-10.☃e");
        tp::<Tp8, (A3, E0, u16)>(c, "Tp8", "-gé99é0");
        tp::<Tp9, A5>(c, "Tp9", "☃f0☃ ");
        tp::<Tp10, U0>(c, "Tp10", "109");
        tp::<Tp11, A1>(c, "Tp11", "9e01-");
        tp_list(c, "t14", &LIST, TopicDirection::ToServer, true, &[("0-bcbcg.b.0/", Key::for_path::<()>("0-bcbcg.b.0/")), ("efZZ0-X", Key::for_path::<u8>("efZZ0-X")), ("09-Y__/X/", Key::for_path::<bool>("09-Y__/X/")), ("", Key::for_path::<B1>("")), ("1b1_-_b.", Key::for_path::<(A3, E0, u16)>("1b1_-_b.")), ("-gX0Z0-☃-f9gg g1cff/eb Yé..gfZa☃Yg9YbXZa1_.Y/☃d1Z_Y1-- ☃X/a9_deXdg1☃-eceX☃cfecc gZ/eé Zcc☃b0f_af-dgecefg1 cb_ agg9..11cf/9é._Y0-._", Key::for_path::<[[u8; 2]; 3]>("-gX0Z0-☃-f9gg g1cff/eb Yé..gfZa☃Yg9YbXZa1_.Y/☃d1Z_Y1-- ☃X/a9_deXdg1☃-eceX☃cfecc gZ/eé Zcc☃b0f_af-dgecefg1 cb_ agg9..11cf/9é._Y0-._")), ("Y//Yc", Key::for_path::<A3>("Y//Yc")), ("c1a-10.☃e", Key::for_path::<u64>("c1a-10.☃e")), ("-gé99é0", Key::for_path::<(A3, E0, u16)>("-gé99é0")), ("☃f0☃ ", Key::for_path::<A5>("☃f0☃ ")), ("109", Key::for_path::<U0>("109")), ("9e01-", Key::for_path::<A1>("9e01-"))], &[<() as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA]);
    }
}
mod t15 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToServer;
        | TopicTy | MessageTy | Path | Cfg |
        | --- | --- | --- | --- |
        | Tp0 | () | "Z.cggea0Y 09Z/.c9Xe☃eY1dé_c/e.gX/cfca9da" | cfg(not(all())) |
        | Tp1 | B0<'a> | "da" |  |
        | Tp2 | [A1; 2] | ".b0" | cfg(any()) |
        | Tp3 | B1<'a> | "ég_éa.1ff_.☃ c b cXd1ZYfb écZ_dga-feéYeé☃0☃ab.☃b01é90ffe.XbX/edY☃0/b0_ f_de /1-XcYce10é.Y. ga☃☃9/☃gf0ca f.X bd☃céd☃b9X-Yefb.☃0.- d" |  |
        | Tp4 | u8 | "0fgeZa90.Xcda.-a191a1/-gg-0b/Xd119- _ ccce1eZ10-f .gg0aY/9eZY.9-0aXZZa/e-beeXdb-féecec☃Z_bfXf_bf☃aea cYé/fX cXa99/91Y.Ybg/dbXd_Xéb" | cfg(any()) |
        | Tp5 | A4 | "_☃/d." |  |
        | Tp6 | i64 | "9dXde-/f" |  |
        | Tp7 | A0 | "gcé_e0éf0_fX" |  |
        | Tp8 | u8 | "déXYZ_d _Zb" | cfg(all()) |
        | Tp9 | A7 | "d/" |  |
        | Tp10 | [u8; 4] | "YYg0f " | cfg(all()) |
        | Tp11 | B0<'a> | "é0fc01c-eé_" |  |
        | Tp12 | u16 | "0" | cfg(any()) |
        | Tp13 | A7 | "d-fc_" | cfg(not(any())) |
        | Tp14 | T0 | "ZX☃-199" | cfg(all()) |
        | Tp15 | [u8; 4] | "  _acX" |  |
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp1, B0>(c, "Tp1", "da");
        tp::<Tp3, B1>(c, "Tp3", "ég_éa.1ff_.☃ c b cXd1ZYfb écZ_dga-feéYeé☃0☃ab.☃b01é90ffe.XbX/edY☃0/b0_ f_de /1-XcYce10é.Y. ga☃☃9/☃gf0ca f.X bd☃céd☃b9X-Yefb.☃0.- d");
        tp::<Tp5, A4>(c, "Tp5", "_☃/d.");
        tp::<Tp6, i64>(c, "Tp6", "9dXde-/f");
        tp::<Tp7, A0>(c, "Tp7", "gcé_e0éf0_fX");
        tp::<Tp8, u8>(c, "Tp8", "déXYZ_d _Zb");
        tp::<Tp9, A7>(c, "Tp9", "d/");
        tp::<Tp10, [u8; 4]>(c, "Tp10", "YYg0f ");
        tp::<Tp11, B0>(c, "Tp11", "é0fc01c-eé_");
        tp::<Tp13, A7>(c, "Tp13", "d-fc_");
        tp::<Tp14, T0>(c, "Tp14", "ZX☃-199");
        tp::<Tp15, [u8; 4]>(c, "Tp15", "  _acX");
        tp_list(c, "t15", &LIST, TopicDirection::ToServer, true, &[("da", Key::for_path::<B0>("da")), ("ég_éa.1ff_.☃ c b cXd1ZYfb écZ_dga-feéYeé☃0☃ab.☃b01é90ffe.XbX/edY☃0/b0_ f_de /1-XcYce10é.Y. ga☃☃9/☃gf0ca f.X bd☃céd☃b9X-Yefb.☃0.- d", Key::for_path::<B1>("ég_éa.1ff_.☃ c b cXd1ZYfb écZ_dga-feéYeé☃0☃ab.☃b01é90ffe.XbX/edY☃0/b0_ f_de /1-XcYce10é.Y. ga☃☃9/☃gf0ca f.X bd☃céd☃b9X-Yefb.☃0.- d")), ("_☃/d.", Key::for_path::<A4>("_☃/d.")), ("9dXde-/f", Key::for_path::<i64>("9dXde-/f")), ("gcé_e0éf0_fX", Key::for_path::<A0>("gcé_e0éf0_fX")), ("déXYZ_d _Zb", Key::for_path::<u8>("déXYZ_d _Zb")), ("d/", Key::for_path::<A7>("d/")), ("YYg0f ", Key::for_path::<[u8; 4]>("YYg0f ")), ("é0fc01c-eé_", Key::for_path::<B0>("é0fc01c-eé_")), ("d-fc_", Key::for_path::<A7>("d-fc_")), ("ZX☃-199", Key::for_path::<T0>("ZX☃-199")), ("  _acX", Key::for_path::<[u8; 4]>("  _acX"))], &[<B0 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA]);
    }
}
mod t16 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToClient;
        omit_std = true;
        | TopicTy | MessageTy | Path | Cfg |
        | --- | --- | --- | --- |
        | Tp0 | A2 | "aaf0Y" |  |
        | Tp1 | [[u8; 2]; 3] | "" | cfg(feature = "no-such-feature") |
        | Tp2 | i8 | "g_☃☃91.-" |  |
        | Tp3 | E1 | "acd0a-é☃dé1e e9Y☃b☃bdeg9bé☃a☃Y☃-e_bédYbc" |  |
        | Tp4 | String | "é.b-_gaéY" | cfg(not(all())) |
        | Tp5 | B1<'a> | "g☃cZ0_Z9.f/" |  |
        | Tp6 | (u8, A2) | "bc _0Ydbé00" | cfg(feature = "no-such-feature") |
        | Tp7 | A7 | "bb" |  |
        | Tp8 | E0 | "_X0X1eZ_009__ég-é_10_Ya9gZYX-Z-.f0d☃0YgcaéXféaéX- 1 dabdd 1/é☃éYgXZZgb1bbX-d☃dg be9ac0☃0a90-a☃c_gY9-Z/gé.d9 bc0e/-/fefa-_e-d9éb /Y" | cfg(not(all())) |
        | Tp9 | U0 | " c" |  |
        | Tp10 | A6 | "X" |  |
        | Tp11 | T0 | "Yc☃/.91cg.X" |  |
        | Tp12 | (A3, E0, u16) | "d/-_aécYZ/./beb0 " |  |
        | Tp13 | A6 | "/0/" | cfg(any()) |
        | Tp14 | A0 | "eb/d/g1☃-_Z" |  |
        | Tp15 | [u8; 4] | "Ye" |  |
        | Tp16 | i8 | "/Z1a-- 1d" |  |
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp0, A2>(c, "Tp0", "aaf0Y");
        tp::<Tp2, i8>(c, "Tp2", "g_☃☃91.-");
        tp::<Tp3, E1>(c, "Tp3", "acd0a-é☃dé1e e9Y☃b☃bdeg9bé☃a☃Y☃-e_bédYbc");
        tp::<Tp5, B1>(c, "Tp5", "g☃cZ0_Z9.f/");
        tp::<Tp7, A7>(c, "Tp7", "bb");
        tp::<Tp9, U0>(c, "Tp9", " c");
        tp::<Tp10, A6>(c, "Tp10", "X");
        tp::<Tp11, T0>(c, "Tp11", "Yc☃/.91cg.X");
        tp::<Tp12, (A3, E0, u16)>(c, "Tp12", "d/-_aécYZ/./beb0 ");
        tp::<Tp14, A0>(c, "Tp14", "eb/d/g1☃-_Z");
        tp::<Tp15, [u8; 4]>(c, "Tp15", "Ye");
        tp::<Tp16, i8>(c, "Tp16", "/Z1a-- 1d");
        tp_list(c, "t16", &LIST, TopicDirection::ToClient, false, &[("aaf0Y", Key::for_path::<A2>("aaf0Y")), ("g_☃☃91.-", Key::for_path::<i8>("g_☃☃91.-")), ("acd0a-é☃dé1e e9Y☃b☃bdeg9bé☃a☃Y☃-e_bédYbc", Key::for_path::<E1>("acd0a-é☃dé1e e9Y☃b☃bdeg9bé☃a☃Y☃-e_bédYbc")), ("g☃cZ0_Z9.f/", Key::for_path::<B1>("g☃cZ0_Z9.f/")), ("bb", Key::for_path::<A7>("bb")), (" c", Key::for_path::<U0>(" c")), ("X", Key::for_path::<A6>("X")), ("Yc☃/.91cg.X", Key::for_path::<T0>("Yc☃/.91cg.X")), ("d/-_aécYZ/./beb0 ", Key::for_path::<(A3, E0, u16)>("d/-_aécYZ/./beb0 ")), ("eb/d/g1☃-_Z", Key::for_path::<A0>("eb/d/g1☃-_Z")), ("Ye", Key::for_path::<[u8; 4]>("Ye")), ("/Z1a-- 1d", Key::for_path::<i8>("/Z1a-- 1d"))], &[<A2 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <i8 as Schema>::SCHEMA]);
    }
}
mod t17 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToClient;
        omit_std = false;
        | TopicTy | MessageTy | Path | Cfg |
        | --- | --- | --- | --- |
        | Tp0 | B0<'a> | "f-c ddf Y9" | cfg(not(any())) |
        | Tp1 | [A1; 2] | " X_baaXX_  -1_d-é" |  |
        | Tp2 | E0 | "9c9fZc9_f" |  |
        | Tp3 | u32 | "ZeZ" |  |
        | Tp4 | E1 | "/g1☃b" | cfg(any()) |
        | Tp5 | A4 | "d-1da0bad" | cfg(feature = "no-such-feature") |
        | Tp6 | i8 | "g0a9.9-g☃1bfc_☃eaé9bbYd_Yeé.1é00b1ZcéX9c9-X0dX.c1agé.9-☃/1  0Yd..aed9ec_f e e1/X_1f-091éZf10_._1☃bé0  X ☃Z1Xe/Yd☃ 99géZ9Y-ZeZ.fZag" |  |
        | Tp7 | String | "-" |  |
        | Tp8 | u32 | "" | cfg(not(any())) |
        | Tp9 | u32 | "ef0-" | cfg(feature = "no-such-feature") |
        | Tp10 | A1 | "aYZ. ae/b" | cfg(not(all())) |
        | Tp11 | (u8, A2) | "Zé-dY1/Xd10g.cXc/c01bdY_-éYfeYcfa-f0Y_d_" | cfg(feature = "no-such-feature") |
        | Tp12 | i64 | "ée-" | cfg(not(any())) |
        | Tp13 | u64 | "éa.fe_0é0" | cfg(not(any())) |
        | Tp14 | B1<'a> | " ☃  f" |  |
        | Tp15 | A1 | "égéeabb0" |  |
        | Tp16 | E0 | "c.ccecd0g_0" | cfg(not(all())) |
        | Tp17 | A4 | "gg9ab/Xa" |  |
        | Tp18 | A4 | "c" |  |
        | Tp19 | E0 | "_1aZb00 ./édfgf9Ya91efZZé9Yé1/ .éé1d☃Z.-aéad☃f e11eX.XYfcX09/éé1-_ég.f/bcX.Zb9gZY./ b/1Zg9-f.Y☃ég_g.-dé._☃/éefZ☃ZXYda_/Z/Zeb9éd☃c9" |  |
        | Tp20 | B1<'a> | "-éaé" |  |
        | Tp21 | [A1; 2] | "☃_" |  |
        | Tp22 | A8 | "gb0gZZfdZ_-géY1 ☃g.-a_☃g.Y _fX_.-./YdXZ/" |  |
        | Tp23 | B1<'a> | "Zée_" |  |
        | Tp24 | A6 | "-0éX1.éYYZ" | cfg(feature = "no-such-feature") |
        | Tp25 | [A1; 2] | "éf9é _-acY" |  |
        | Tp26 | u32 | "/b/☃c" |  |
        | Tp27 | [A1; 2] | "e/" | cfg(any()) |
        | Tp28 | i64 | "cYa" |  |
        | Tp29 | [u8; 4] | "☃_ -9fgd bdd" | cfg(not(all())) |
        | Tp30 | u16 | "f9_d" | cfg(not(all())) |
        | Tp31 | A6 | "a dbc" |  |
        | Tp32 | A3 | "af_Xae.Yeb" |  |
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp0, B0>(c, "Tp0", "f-c ddf Y9");
        tp::<Tp1, [A1; 2]>(c, "Tp1", " X_baaXX_  -1_d-é");
        tp::<Tp2, E0>(c, "Tp2", "9c9fZc9_f");
        tp::<Tp3, u32>(c, "Tp3", "ZeZ");
        tp::<Tp6, i8>(c, "Tp6", "g0a9.9-g☃1bfc_☃eaé9bbYd_Yeé.1é00b1ZcéX9c9-X0dX.c1agé.9-☃/1  0Yd..aed9ec_f e e1/X_1f-091éZf10_._1☃bé0  X ☃Z1Xe/Yd☃ 99géZ9Y-ZeZ.fZag");
        tp::<Tp7, String>(c, "Tp7", "-");
        tp::<Tp8, u32>(c, "Tp8", "");
        tp::<Tp12, i64>(c, "Tp12", "ée-");
        tp::<Tp13, u64>(c, "Tp13", "éa.fe_0é0");
        tp::<Tp14, B1>(c, "Tp14", " ☃  f");
        tp::<Tp15, A1>(c, "Tp15", "égéeabb0");
        tp::<Tp17, A4>(c, "Tp17", "gg9ab/Xa");
        tp::<Tp18, A4>(c, "Tp18", "c");
        tp::<Tp19, E0>(c, "Tp19", "_1aZb00 ./édfgf9Ya91efZZé9Yé1/ .éé1d☃Z.-aéad☃f e11eX.XYfcX09/éé1-_ég.f/bcX.Zb9gZY./ b/1Zg9-f.Y☃ég_g.-dé._☃/éefZ☃ZXYda_/Z/Zeb9éd☃c9");
        tp::<Tp20, B1>(c, "Tp20", "-éaé");
        tp::<Tp21, [A1; 2]>(c, "Tp21", "☃_");
        tp::<Tp22, A8>(c, "Tp22", "gb0gZZfdZ_-géY1 ☃g.-a_☃g.Y _fX_.-./YdXZ/");
        tp::<Tp23, B1>(c, "Tp23", "Zée_");
        tp::<Tp25, [A1; 2]>(c, "Tp25", "éf9é _-acY");
        tp::<Tp26, u32>(c, "Tp26", "/b/☃c");
        tp::<Tp28, i64>(c, "Tp28", "cYa");
        tp::<Tp31, A6>(c, "Tp31", "a dbc");
        tp::<Tp32, A3>(c, "Tp32", "af_Xae.Yeb");
        tp_list(c, "t17", &LIST, TopicDirection::ToClient, true, &[("f-c ddf Y9", Key::for_path::<B0>("f-c ddf Y9")), (" X_baaXX_  -1_d-é", Key::for_path::<[A1; 2]>(" X_baaXX_  -1_d-é")), ("9c9fZc9_f", Key::for_path::<E0>("9c9fZc9_f")), ("ZeZ", Key::for_path::<u32>("ZeZ")), ("g0a9.9-g☃1bfc_☃eaé9bbYd_Yeé.1é00b1ZcéX9c9-X0dX.c1agé.9-☃/1  0Yd..aed9ec_f e e1/X_1f-091éZf10_._1☃bé0  X ☃Z1Xe/Yd☃ 99géZ9Y-ZeZ.fZag", Key::for_path::<i8>("g0a9.9-g☃1bfc_☃eaé9bbYd_Yeé.1é00b1ZcéX9c9-X0dX.c1agé.9-☃/1  0Yd..aed9ec_f e e1/X_1f-091éZf10_._1☃bé0  X ☃Z1Xe/Yd☃ 99géZ9Y-ZeZ.fZag")), ("-", Key::for_path::<String>("-")), ("", Key::for_path::<u32>("")), ("ée-", Key::for_path::<i64>("ée-")), ("éa.fe_0é0", Key::for_path::<u64>("éa.fe_0é0")), (" ☃  f", Key::for_path::<B1>(" ☃  f")), ("égéeabb0", Key::for_path::<A1>("égéeabb0")), ("gg9ab/Xa", Key::for_path::<A4>("gg9ab/Xa")), ("c", Key::for_path::<A4>("c")), ("_1aZb00 ./édfgf9Ya91efZZé9Yé1/ .éé1d☃Z.-aéad☃f e11eX.XYfcX09/éé1-_ég.f/bcX.Zb9gZY./ b/1Zg9-f.Y☃ég_g.-dé._☃/éefZ☃ZXYda_/Z/Zeb9éd☃c9", Key::for_path::<E0>("_1aZb00 ./édfgf9Ya91efZZé9Yé1/ .éé1d☃Z.-aéad☃f e11eX.XYfcX09/éé1-_ég.f/bcX.Zb9gZY./ b/1Zg9-f.Y☃ég_g.-dé._☃/éefZ☃ZXYda_/Z/Zeb9éd☃c9")), ("-éaé", Key::for_path::<B1>("-éaé")), ("☃_", Key::for_path::<[A1; 2]>("☃_")), ("gb0gZZfdZ_-géY1 ☃g.-a_☃g.Y _fX_.-./YdXZ/", Key::for_path::<A8>("gb0gZZfdZ_-géY1 ☃g.-a_☃g.Y _fX_.-./YdXZ/")), ("Zée_", Key::for_path::<B1>("Zée_")), ("éf9é _-acY", Key::for_path::<[A1; 2]>("éf9é _-acY")), ("/b/☃c", Key::for_path::<u32>("/b/☃c")), ("cYa", Key::for_path::<i64>("cYa")), ("a dbc", Key::for_path::<A6>("a dbc")), ("af_Xae.Yeb", Key::for_path::<A3>("af_Xae.Yeb"))], &[<B0 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA]);
    }
}
mod t18 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToServer;
        | TopicTy | MessageTy | Path | 
        | --- | --- | --- | 

    }
    pub fn check(c: &mut Ctx) {
        
        tp_list(c, "t18", &LIST, TopicDirection::ToServer, true, &[], &[]);
    }
}
mod t19 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToServer;
        omit_std = true;
        | TopicTy | MessageTy | Path | 
        | --- | --- | --- | 

    }
    pub fn check(c: &mut Ctx) {
        
        tp_list(c, "t19", &LIST, TopicDirection::ToServer, false, &[], &[]);
    }
}
mod t20 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToClient;
        omit_std = false;
        | TopicTy | MessageTy | Path | 
        | --- | --- | --- | 
        | Tp0 | String | "cg9.☃ééc -b" | 
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp0, String>(c, "Tp0", "cg9.☃ééc -b");
        tp_list(c, "t20", &LIST, TopicDirection::ToClient, true, &[("cg9.☃ééc -b", Key::for_path::<String>("cg9.☃ééc -b"))], &[<String as Schema>::SCHEMA]);
    }
}
mod t21 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToClient;
        | TopicTy | MessageTy | Path | Cfg |
        | --- | --- | --- | --- |
        | Tp0 | B0<'a> | "dc." | cfg(not(all())) |
    }
    pub fn check(c: &mut Ctx) {
        
        tp_list(c, "t21", &LIST, TopicDirection::ToClient, true, &[], &[]);
    }
}
mod t22 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToServer;
        omit_std = true;
        | TopicTy | MessageTy | Path | Cfg |
        | --- | --- | --- | --- |
        | Tp0 | E0 | "d c" |  |
        | Tp1 | u32 | " éZXa" |  |
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp0, E0>(c, "Tp0", "d c");
        tp::<Tp1, u32>(c, "Tp1", " éZXa");
        tp_list(c, "t22", &LIST, TopicDirection::ToServer, false, &[("d c", Key::for_path::<E0>("d c")), (" éZXa", Key::for_path::<u32>(" éZXa"))], &[<E0 as Schema>::SCHEMA, <u32 as Schema>::SCHEMA]);
    }
}
mod t23 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToServer;
        omit_std = false;
        | TopicTy | MessageTy | Path | Cfg |
        | --- | --- | --- | --- |
        | Tp0 | B0<'a> | "☃Xa-_eg" | cfg(not(all())) |
        | Tp1 | N1 | "_gZXf gd" | cfg(all()) |
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp1, N1>(c, "Tp1", "_gZXf gd");
        tp_list(c, "t23", &LIST, TopicDirection::ToServer, true, &[("_gZXf gd", Key::for_path::<N1>("_gZXf gd"))], &[<N1 as Schema>::SCHEMA]);
    }
}
mod t24 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToClient;
        | TopicTy | MessageTy | Path | 
        | --- | --- | --- | 
        | Tp0 | f32 | "_9.ga19" | 
        | Tp1 | B1<'a> | "d" | 
        | Tp2 | N1 | "Z bfd" | 
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp0, f32>(c, "Tp0", "_9.ga19");
        tp::<Tp1, B1>(c, "Tp1", "d");
        tp::<Tp2, N1>(c, "Tp2", "Z bfd");
        tp_list(c, "t24", &LIST, TopicDirection::ToClient, true, &[("_9.ga19", Key::for_path::<f32>("_9.ga19")), ("d", Key::for_path::<B1>("d")), ("Z bfd", Key::for_path::<N1>("Z bfd"))], &[<f32 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA]);
    }
}
mod t25 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToClient;
        omit_std = true;
        | TopicTy | MessageTy | Path | 
        | --- | --- | --- | 
        | Tp0 | N1 | "Zb..0" | 
        | Tp1 | A4 | "eead9cZ/1" | 
        | Tp2 | A5 | "gXgXé/f1☃/XfZ☃bgf" | 
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp0, N1>(c, "Tp0", "Zb..0");
        tp::<Tp1, A4>(c, "Tp1", "eead9cZ/1");
        tp::<Tp2, A5>(c, "Tp2", "gXgXé/f1☃/XfZ☃bgf");
        tp_list(c, "t25", &LIST, TopicDirection::ToClient, false, &[("Zb..0", Key::for_path::<N1>("Zb..0")), ("eead9cZ/1", Key::for_path::<A4>("eead9cZ/1")), ("gXgXé/f1☃/XfZ☃bgf", Key::for_path::<A5>("gXgXé/f1☃/XfZ☃bgf"))], &[<N1 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA]);
    }
}
mod t26 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToServer;
        omit_std = false;
        | TopicTy | MessageTy | Path | 
        | --- | --- | --- | 
        | Tp0 | (u8, A2) | "0Z/é_éY" | 
        | Tp1 | A4 | "--eéddec." | 
        | Tp2 | A7 | "b.f-" | 
        | Tp3 | u32 | "." | 
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp0, (u8, A2)>(c, "Tp0", "0Z/é_éY");
        tp::<Tp1, A4>(c, "Tp1", "--eéddec.");
        tp::<Tp2, A7>(c, "Tp2", "b.f-");
        tp::<Tp3, u32>(c, "Tp3", ".");
        tp_list(c, "t26", &LIST, TopicDirection::ToServer, true, &[("0Z/é_éY", Key::for_path::<(u8, A2)>("0Z/é_éY")), ("--eéddec.", Key::for_path::<A4>("--eéddec.")), ("b.f-", Key::for_path::<A7>("b.f-")), (".", Key::for_path::<u32>("."))], &[<(u8, A2) as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <u32 as Schema>::SCHEMA]);
    }
}
mod t27 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToServer;
        | TopicTy | MessageTy | Path | Cfg |
        | --- | --- | --- | --- |
        | Tp0 | [u8; 4] | ".0c-99/1" | cfg(feature = "no-such-feature") |
        | Tp1 | E1 | "b-dg" |  |
        | Tp2 | (A3, E0, u16) | "aZ1_.e/d" |  |
        | Tp3 | u8 | "/eZ" |  |
        | Tp4 | A0 | "éY0X0.Z_9éY" | cfg(all()) |
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp1, E1>(c, "Tp1", "b-dg");
        tp::<Tp2, (A3, E0, u16)>(c, "Tp2", "aZ1_.e/d");
        tp::<Tp3, u8>(c, "Tp3", "/eZ");
        tp::<Tp4, A0>(c, "Tp4", "éY0X0.Z_9éY");
        tp_list(c, "t27", &LIST, TopicDirection::ToServer, true, &[("b-dg", Key::for_path::<E1>("b-dg")), ("aZ1_.e/d", Key::for_path::<(A3, E0, u16)>("aZ1_.e/d")), ("/eZ", Key::for_path::<u8>("/eZ")), ("éY0X0.Z_9éY", Key::for_path::<A0>("éY0X0.Z_9éY"))], &[<E1 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <A0 as Schema>::SCHEMA]);
    }
}
mod t28 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToClient;
        omit_std = true;
        | TopicTy | MessageTy | Path | Cfg |
        | --- | --- | --- | --- |
        | Tp0 | f32 | "Y9e_Zc1be" |  |
        | Tp1 | A0 | "Z0 9eédadd Zgbé../ ☃9.91☃e0g1☃.0ceéb_b f" |  |
        | Tp2 | A7 | "☃Z☃d☃_1feé☃9/b Y0" | cfg(feature = "no-such-feature") |
        | Tp3 | B0<'a> | "/0cb" | cfg(not(any())) |
        | Tp4 | E1 | "-XY" | cfg(not(any())) |
        | Tp5 | T0 | "00-éeXééZ" | cfg(not(any())) |
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp0, f32>(c, "Tp0", "Y9e_Zc1be");
        tp::<Tp1, A0>(c, "Tp1", "Z0 9eédadd Zgbé../ ☃9.91☃e0g1☃.0ceéb_b f");
        tp::<Tp3, B0>(c, "Tp3", "/0cb");
        tp::<Tp4, E1>(c, "Tp4", "-XY");
        tp::<Tp5, T0>(c, "Tp5", "00-éeXééZ");
        tp_list(c, "t28", &LIST, TopicDirection::ToClient, false, &[("Y9e_Zc1be", Key::for_path::<f32>("Y9e_Zc1be")), ("Z0 9eédadd Zgbé../ ☃9.91☃e0g1☃.0ceéb_b f", Key::for_path::<A0>("Z0 9eédadd Zgbé../ ☃9.91☃e0g1☃.0ceéb_b f")), ("/0cb", Key::for_path::<B0>("/0cb")), ("-XY", Key::for_path::<E1>("-XY")), ("00-éeXééZ", Key::for_path::<T0>("00-éeXééZ"))], &[<f32 as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA]);
    }
}
mod t29 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToClient;
        omit_std = false;
        | TopicTy | MessageTy | Path | Cfg |
        | --- | --- | --- | --- |
        | Tp0 | A0 | "10.☃9aXa-☃" |  |
        | Tp1 | f32 | "1é " | cfg(all()) |
        | Tp2 | N1 | "b☃c☃db0Z c9" |  |
        | Tp3 | i8 | "1f90g_Zf ZXée09.-d_.dabYg_0/cgd-0bgb-9/_b.ac_Z.c ./ddbcd/Xda9def☃-é1-a☃9é0 eZY1f9☃abXYadf_ _ZXg 0 é/é00_c☃Z_/00é☃/b_1d☃aacdfé1de9 " | cfg(not(any())) |
        | Tp4 | E1 | "dfbaX.b_0☃cé/dé☃_/☃ég_aXegZd X9Z.d19.Y/9" |  |
        | Tp5 | u16 | " 0e fb_99f0" |  |
        | Tp6 | B0<'a> | "dX9c-1Y1 . ☃" |  |
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp0, A0>(c, "Tp0", "10.☃9aXa-☃");
        tp::<Tp1, f32>(c, "Tp1", "1é ");
        tp::<Tp2, N1>(c, "Tp2", "b☃c☃db0Z c9");
        tp::<Tp3, i8>(c, "Tp3", "1f90g_Zf ZXée09.-d_.dabYg_0/cgd-0bgb-9/_b.ac_Z.c ./ddbcd/Xda9def☃-é1-a☃9é0 eZY1f9☃abXYadf_ _ZXg 0 é/é00_c☃Z_/00é☃/b_1d☃aacdfé1de9 ");
        tp::<Tp4, E1>(c, "Tp4", "dfbaX.b_0☃cé/dé☃_/☃ég_aXegZd X9Z.d19.Y/9");
        tp::<Tp5, u16>(c, "Tp5", " 0e fb_99f0");
        tp::<Tp6, B0>(c, "Tp6", "dX9c-1Y1 . ☃");
        tp_list(c, "t29", &LIST, TopicDirection::ToClient, true, &[("10.☃9aXa-☃", Key::for_path::<A0>("10.☃9aXa-☃")), ("1é ", Key::for_path::<f32>("1é ")), ("b☃c☃db0Z c9", Key::for_path::<N1>("b☃c☃db0Z c9")), ("1f90g_Zf ZXée09.-d_.dabYg_0/cgd-0bgb-9/_b.ac_Z.c ./ddbcd/Xda9def☃-é1-a☃9é0 eZY1f9☃abXYadf_ _ZXg 0 é/é00_c☃Z_/00é☃/b_1d☃aacdfé1de9 ", Key::for_path::<i8>("1f90g_Zf ZXée09.-d_.dabYg_0/cgd-0bgb-9/_b.ac_Z.c ./ddbcd/Xda9def☃-é1-a☃9é0 eZY1f9☃abXYadf_ _ZXg 0 é/é00_c☃Z_/00é☃/b_1d☃aacdfé1de9 ")), ("dfbaX.b_0☃cé/dé☃_/☃ég_aXegZd X9Z.d19.Y/9", Key::for_path::<E1>("dfbaX.b_0☃cé/dé☃_/☃ég_aXegZd X9Z.d19.Y/9")), (" 0e fb_99f0", Key::for_path::<u16>(" 0e fb_99f0")), ("dX9c-1Y1 . ☃", Key::for_path::<B0>("dX9c-1Y1 . ☃"))], &[<A0 as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <u16 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA]);
    }
}
mod t30 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToServer;
        | TopicTy | MessageTy | Path | 
        | --- | --- | --- | 
        | Tp0 | A8 | "-c☃X0Zb" | 
        | Tp1 | U0 | "g./.Yade1" | 
        | Tp2 | A4 | "9f9..09bacé" | 
        | Tp3 | [u8; 4] | "/fe-" | 
        | Tp4 | A2 | ".a1Ye1éd_91b_é  c" | 
        | Tp5 | u8 | "Z-_bg91ZXé/" | 
        | Tp6 | u16 | "ec" | 
        | Tp7 | B1<'a> | "._ZXaX/" | 
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp0, A8>(c, "Tp0", "-c☃X0Zb");
        tp::<Tp1, U0>(c, "Tp1", "g./.Yade1");
        tp::<Tp2, A4>(c, "Tp2", "9f9..09bacé");
        tp::<Tp3, [u8; 4]>(c, "Tp3", "/fe-");
        tp::<Tp4, A2>(c, "Tp4", ".a1Ye1éd_91b_é  c");
        tp::<Tp5, u8>(c, "Tp5", "Z-_bg91ZXé/");
        tp::<Tp6, u16>(c, "Tp6", "ec");
        tp::<Tp7, B1>(c, "Tp7", "._ZXaX/");
        tp_list(c, "t30", &LIST, TopicDirection::ToServer, true, &[("-c☃X0Zb", Key::for_path::<A8>("-c☃X0Zb")), ("g./.Yade1", Key::for_path::<U0>("g./.Yade1")), ("9f9..09bacé", Key::for_path::<A4>("9f9..09bacé")), ("/fe-", Key::for_path::<[u8; 4]>("/fe-")), (".a1Ye1éd_91b_é  c", Key::for_path::<A2>(".a1Ye1éd_91b_é  c")), ("Z-_bg91ZXé/", Key::for_path::<u8>("Z-_bg91ZXé/")), ("ec", Key::for_path::<u16>("ec")), ("._ZXaX/", Key::for_path::<B1>("._ZXaX/"))], &[<A8 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <u16 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA]);
    }
}
mod t31 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToServer;
        omit_std = true;
        | TopicTy | MessageTy | Path | 
        | --- | --- | --- | 
        | Tp0 | bool | "☃Yé0Y aXce" | 
        | Tp1 | A3 | "Ze0g." | 
        | Tp2 | A2 | "f.X09" | 
        | Tp3 | B0<'a> | "é_a01d" | 
        | Tp4 | (A3, E0, u16) | "1." | 
        | Tp5 | B0<'a> | "XgY9éd/" | 
        | Tp6 | A4 | "b-e1/9Zgba" | 
        | Tp7 | i8 | "é/cb1édbY_X" | 
        | Tp8 | B0<'a> | "☃1df_" | 
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp0, bool>(c, "Tp0", "☃Yé0Y aXce");
        tp::<Tp1, A3>(c, "Tp1", "Ze0g.");
        tp::<Tp2, A2>(c, "Tp2", "f.X09");
        tp::<Tp3, B0>(c, "Tp3", "é_a01d");
        tp::<Tp4, (A3, E0, u16)>(c, "Tp4", "1.");
        tp::<Tp5, B0>(c, "Tp5", "XgY9éd/");
        tp::<Tp6, A4>(c, "Tp6", "b-e1/9Zgba");
        tp::<Tp7, i8>(c, "Tp7", "é/cb1édbY_X");
        tp::<Tp8, B0>(c, "Tp8", "☃1df_");
        tp_list(c, "t31", &LIST, TopicDirection::ToServer, false, &[("☃Yé0Y aXce", Key::for_path::<bool>("☃Yé0Y aXce")), ("Ze0g.", Key::for_path::<A3>("Ze0g.")), ("f.X09", Key::for_path::<A2>("f.X09")), ("é_a01d", Key::for_path::<B0>("é_a01d")), ("1.", Key::for_path::<(A3, E0, u16)>("1.")), ("XgY9éd/", Key::for_path::<B0>("XgY9éd/")), ("b-e1/9Zgba", Key::for_path::<A4>("b-e1/9Zgba")), ("é/cb1édbY_X", Key::for_path::<i8>("é/cb1édbY_X")), ("☃1df_", Key::for_path::<B0>("☃1df_"))], &[<bool as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA]);
    }
}
mod t32 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToClient;
        omit_std = false;
        | TopicTy | MessageTy | Path | 
        | --- | --- | --- | 
        | Tp0 | N0 | " " | 
        | Tp1 | () | "b bdc-9cgc /Xefg0a-c..aZ Xcb☃☃gYfa/ 0☃YdZ☃0.c ceeg-☃1g.acd/X1d9.☃/9é.Zeeac0éZeb1gceZaX-YY-.dXXé.-0_e_é-cYYY0Yacg1éfY XYbdX-1baaad_" | 
        | Tp2 | i8 | "-  " | 
        | Tp3 | B0<'a> | "Y☃b_é_ _b" | 
        | Tp4 | U0 | "1Xf/Z c☃." | 
        | Tp5 | A5 | "" | 
        | Tp6 | [u8; 4] | "1☃" | 
        | Tp7 | (A3, E0, u16) | "e-Z1 -1eg" | 
        | Tp8 | u16 | "YéXZ-_01" | 
        | Tp9 | A1 | "gZ1af" | 
        | Tp10 | [A1; 2] | "ecg-c1_d" | 
        | Tp11 | i64 | "-fe9YZfad.ed" | 
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp0, N0>(c, "Tp0", " ");
        tp::<Tp1, ()>(c, "Tp1", "b bdc-9cgc /Xefg0a-c..aZ Xcb☃☃gYfa/ 0☃YdZ☃0.c ceeg-☃1g.acd/X1d9.☃/9é.Zeeac0éZeb1gceZaX-YY-.dXXé.-0_e_é-cYYY0Yacg1éfY XYbdX-1baaad_");
        tp::<Tp2, i8>(c, "Tp2", "-  ");
        tp::<Tp3, B0>(c, "Tp3", "Y☃b_é_ _b");
        tp::<Tp4, U0>(c, "Tp4", "1Xf/Z c☃.");
        tp::<Tp5, A5>(c, "Tp5", "");
        tp::<Tp6, [u8; 4]>(c, "Tp6", "1☃");
        tp::<Tp7, (A3, E0, u16)>(c, "Tp7", "e-Z1 -1eg");
        tp::<Tp8, u16>(c, "Tp8", "YéXZ-_01");
        tp::<Tp9, A1>(c, "Tp9", "gZ1af");
        tp::<Tp10, [A1; 2]>(c, "Tp10", "ecg-c1_d");
        tp::<Tp11, i64>(c, "Tp11", "-fe9YZfad.ed");
        tp_list(c, "t32", &LIST, TopicDirection::ToClient, true, &[(" ", Key::for_path::<N0>(" ")), ("b bdc-9cgc /Xefg0a-c..aZ Xcb☃☃gYfa/ 0☃YdZ☃0.c ceeg-☃1g.acd/X1d9.☃/9é.Zeeac0éZeb1gceZaX-YY-.dXXé.-0_e_é-cYYY0Yacg1éfY XYbdX-1baaad_", Key::for_path::<()>("b bdc-9cgc /Xefg0a-c..aZ Xcb☃☃gYfa/ 0☃YdZ☃0.c ceeg-☃1g.acd/X1d9.☃/9é.Zeeac0éZeb1gceZaX-YY-.dXXé.-0_e_é-cYYY0Yacg1éfY XYbdX-1baaad_")), ("-  ", Key::for_path::<i8>("-  ")), ("Y☃b_é_ _b", Key::for_path::<B0>("Y☃b_é_ _b")), ("1Xf/Z c☃.", Key::for_path::<U0>("1Xf/Z c☃.")), ("", Key::for_path::<A5>("")), ("1☃", Key::for_path::<[u8; 4]>("1☃")), ("e-Z1 -1eg", Key::for_path::<(A3, E0, u16)>("e-Z1 -1eg")), ("YéXZ-_01", Key::for_path::<u16>("YéXZ-_01")), ("gZ1af", Key::for_path::<A1>("gZ1af")), ("ecg-c1_d", Key::for_path::<[A1; 2]>("ecg-c1_d")), ("-fe9YZfad.ed", Key::for_path::<i64>("-fe9YZfad.ed"))], &[<N0 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <u16 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <i64 as Schema>::SCHEMA]);
    }
}
mod t33 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToClient;
        | TopicTy | MessageTy | Path | Cfg |
        | --- | --- | --- | --- |
        | Tp0 | E1 | " f." | cfg(all()) |
        | Tp1 | i64 | "" | cfg(not(any())) |
        | Tp2 | A4 | "é" | cfg(feature = "no-such-feature") |
        | Tp3 | A7 | "b." | cfg(any()) |
        | Tp4 | A6 | "/c ggb ." | cfg(not(all())) |
        | Tp5 | B1<'a> | "g-" | cfg(not(any())) |
        | Tp6 | [[u8; 2]; 3] | "b/f_" |  |
        | Tp7 | A1 | "0c/. a0_☃beYe_a1/dbef/c1d0fbY_fe9Ya./Yé " | cfg(all()) |
        | Tp8 | i64 | "Z" | cfg(not(any())) |
        | Tp9 | A0 | "dé-ab☃" |  |
        | Tp10 | N1 | "b9.ed-g9XfZX" |  |
        | Tp11 | A8 | "0 X.f" |  |
        | Tp12 | B0<'a> | "é.☃9X_d91" |  |
        | Tp13 | String | "aeXcgX/b☃" | cfg(all()) |
        | Tp14 | u16 | "9/eXe☃9.é" |  |
        | Tp15 | u8 | " déY0edbf-0 c_☃gXXX/9cg9ga9YYY0.f☃X0Xéc☃" | cfg(not(all())) |
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp0, E1>(c, "Tp0", " f.");
        tp::<Tp1, i64>(c, "Tp1", "");
        tp::<Tp5, B1>(c, "Tp5", "g-");
        tp::<Tp6, [[u8; 2]; 3]>(c, "Tp6", "b/f_");
        tp::<Tp7, A1>(c, "Tp7", "0c/. a0_☃beYe_a1/dbef/c1d0fbY_fe9Ya./Yé ");
        tp::<Tp8, i64>(c, "Tp8", "Z");
        tp::<Tp9, A0>(c, "Tp9", "dé-ab☃");
        tp::<Tp10, N1>(c, "Tp10", "b9.ed-g9XfZX");
        tp::<Tp11, A8>(c, "Tp11", "0 X.f");
        tp::<Tp12, B0>(c, "Tp12", "é.☃9X_d91");
        tp::<Tp13, String>(c, "Tp13", "aeXcgX/b☃");
        tp::<Tp14, u16>(c, "Tp14", "9/eXe☃9.é");
        tp_list(c, "t33", &LIST, TopicDirection::ToClient, true, &[(" f.", Key::for_path::<E1>(" f.")), ("", Key::for_path::<i64>("")), ("g-", Key::for_path::<B1>("g-")), ("b/f_", Key::for_path::<[[u8; 2]; 3]>("b/f_")), ("0c/. a0_☃beYe_a1/dbef/c1d0fbY_fe9Ya./Yé ", Key::for_path::<A1>("0c/. a0_☃beYe_a1/dbef/c1d0fbY_fe9Ya./Yé ")), ("Z", Key::for_path::<i64>("Z")), ("dé-ab☃", Key::for_path::<A0>("dé-ab☃")), ("b9.ed-g9XfZX", Key::for_path::<N1>("b9.ed-g9XfZX")), ("0 X.f", Key::for_path::<A8>("0 X.f")), ("é.☃9X_d91", Key::for_path::<B0>("é.☃9X_d91")), ("aeXcgX/b☃", Key::for_path::<String>("aeXcgX/b☃")), ("9/eXe☃9.é", Key::for_path::<u16>("9/eXe☃9.é"))], &[<E1 as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <u16 as Schema>::SCHEMA]);
    }
}
mod t34 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToServer;
        omit_std = true;
        | TopicTy | MessageTy | Path | Cfg |
        | --- | --- | --- | --- |
        | Tp0 | [u8; 4] | ".é/9☃" | cfg(any()) |
        | Tp1 | E0 | "a9/Xbga g..a" |  |
        | Tp2 | String | "☃_" |  |
        | Tp3 | E1 | "/Zdg/b.9d☃01eZgZ/__d_édYaa -Y.09/afag01f" |  |
        | Tp4 | (u8, A2) | "1-a-.éX" |  |
        | Tp5 | E0 | "☃☃_ea" | cfg(not(any())) |
        | Tp6 | A3 | "Z1☃" | cfg(all()) |
        | Tp7 | [u8; 4] | "Ye_édc Ze_1cb/db." | cfg(not(all())) |
        | Tp8 | i64 | "- bXf" |  |
        | Tp9 | N0 | "0Ze1dfXYag/f" |  |
        | Tp10 | U0 | "9X0X9éffZ" | cfg(all()) |
        | Tp11 | A1 | "1.é" |  |
        | Tp12 | A3 | "eYc" |  |
        | Tp13 | [[u8; 2]; 3] | "Yf1é/X☃b0" | cfg(not(all())) |
        | Tp14 | [A1; 2] | "cgYZ10g /" | cfg(any()) |
        | Tp15 | B1<'a> | "Zda9" | cfg(not(any())) |
        | Tp16 | A4 | "c-" |  |
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp1, E0>(c, "Tp1", "a9/Xbga g..a");
        tp::<Tp2, String>(c, "Tp2", "☃_");
        tp::<Tp3, E1>(c, "Tp3", "/Zdg/b.9d☃01eZgZ/__d_édYaa -Y.09/afag01f");
        tp::<Tp4, (u8, A2)>(c, "Tp4", "1-a-.éX");
        tp::<Tp5, E0>(c, "Tp5", "☃☃_ea");
        tp::<Tp6, A3>(c, "Tp6", "Z1☃");
        tp::<Tp8, i64>(c, "Tp8", "- bXf");
        tp::<Tp9, N0>(c, "Tp9", "0Ze1dfXYag/f");
        tp::<Tp10, U0>(c, "Tp10", "9X0X9éffZ");
        tp::<Tp11, A1>(c, "Tp11", "1.é");
        tp::<Tp12, A3>(c, "Tp12", "eYc");
        tp::<Tp15, B1>(c, "Tp15", "Zda9");
        tp::<Tp16, A4>(c, "Tp16", "c-");
        tp_list(c, "t34", &LIST, TopicDirection::ToServer, false, &[("a9/Xbga g..a", Key::for_path::<E0>("a9/Xbga g..a")), ("☃_", Key::for_path::<String>("☃_")), ("/Zdg/b.9d☃01eZgZ/__d_édYaa -Y.09/afag01f", Key::for_path::<E1>("/Zdg/b.9d☃01eZgZ/__d_édYaa -Y.09/afag01f")), ("1-a-.éX", Key::for_path::<(u8, A2)>("1-a-.éX")), ("☃☃_ea", Key::for_path::<E0>("☃☃_ea")), ("Z1☃", Key::for_path::<A3>("Z1☃")), ("- bXf", Key::for_path::<i64>("- bXf")), ("0Ze1dfXYag/f", Key::for_path::<N0>("0Ze1dfXYag/f")), ("9X0X9éffZ", Key::for_path::<U0>("9X0X9éffZ")), ("1.é", Key::for_path::<A1>("1.é")), ("eYc", Key::for_path::<A3>("eYc")), ("Zda9", Key::for_path::<B1>("Zda9")), ("c-", Key::for_path::<A4>("c-"))], &[<E0 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA]);
    }
}
mod t35 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToServer;
        omit_std = false;
        | TopicTy | MessageTy | Path | Cfg |
        | --- | --- | --- | --- |
        | Tp0 | () | "be☃/" | cfg(not(any())) |
        | Tp1 | u8 | "ZZ _.é☃☃" |  |
        | Tp2 | String | "Y9-Y9" |  |
        | Tp3 | N1 | "/0Y1Zgbdcf" |  |
        | Tp4 | [u8; 4] | "e da.bYe" | cfg(feature = "no-such-feature") |
        | Tp5 | u32 | "-☃X" | cfg(any()) |
        | Tp6 | B0<'a> | "☃☃Yg X☃/Zé.Y" | cfg(any()) |
        | Tp7 | T0 | "0Ya .a0Y/☃gZcfgY." | cfg(not(any())) |
        | Tp8 | A7 | "1-gfX dd." | cfg(not(all())) |
        | Tp9 | N0 | "" | cfg(feature = "no-such-feature") |
        | Tp10 | A8 | "ZZ/ég/fZ091b☃9_def☃ dYc1_0c1/0☃9/g.b☃__ab9 90Zcd☃0YZZdg☃☃f010/11g -/.eb0 Z0cZf ée0c_ggZaeX1Xgdff-YXZ.ZeaZb-_ é☃/-0gY0☃bc☃. /YfYgb☃" |  |
        | Tp11 | A4 | "d9☃b1dXb" |  |
        | Tp12 | (A3, E0, u16) | "b " | cfg(feature = "no-such-feature") |
        | Tp13 | T0 | "99" | cfg(not(any())) |
        | Tp14 | U0 | "0cfé9/Y0é.b" |  |
        | Tp15 | u64 | "éZéée☃cdéZé" |  |
        | Tp16 | String | ".é-/XZ f 1f" |  |
        | Tp17 | A4 | "ggYXfdX_1X0" | cfg(feature = "no-such-feature") |
        | Tp18 | i8 | "Yd9e" | cfg(feature = "no-such-feature") |
        | Tp19 | A2 | "_fb/" | cfg(not(all())) |
        | Tp20 | A8 | "éaé" | cfg(all()) |
        | Tp21 | u8 | "XeX9/" |  |
        | Tp22 | A3 | "Xbde 00caag" | cfg(not(any())) |
        | Tp23 | () | "0X /dZ☃9g" |  |
        | Tp24 | () | "11" |  |
        | Tp25 | () | "X01ff-9éa 1cf- Ze" | cfg(any()) |
        | Tp26 | A6 | ".c1" | cfg(feature = "no-such-feature") |
        | Tp27 | [u8; 4] | "Zd 1." |  |
        | Tp28 | i64 | "/0é1_--ZZ" | cfg(any()) |
        | Tp29 | E0 | "déd" | cfg(not(any())) |
        | Tp30 | B1<'a> | "a-☃" | cfg(any()) |
        | Tp31 | E1 | "c0d0 1c.e" | cfg(all()) |
        | Tp32 | [[u8; 2]; 3] | "cg_1.gX-" | cfg(any()) |
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp0, ()>(c, "Tp0", "be☃/");
        tp::<Tp1, u8>(c, "Tp1", "ZZ _.é☃☃");
        tp::<Tp2, String>(c, "Tp2", "Y9-Y9");
        tp::<Tp3, N1>(c, "Tp3", "/0Y1Zgbdcf");
        tp::<Tp7, T0>(c, "Tp7", "0Ya .a0Y/☃gZcfgY.");
        tp::<Tp10, A8>(c, "Tp10", "ZZ/ég/fZ091b☃9_def☃ dYc1_0c1/0☃9/g.b☃__ab9 90Zcd☃0YZZdg☃☃f010/11g -/.eb0 Z0cZf ée0c_ggZaeX1Xgdff-YXZ.ZeaZb-_ é☃/-0gY0☃bc☃. /YfYgb☃");
        tp::<Tp11, A4>(c, "Tp11", "d9☃b1dXb");
        tp::<Tp13, T0>(c, "Tp13", "99");
        tp::<Tp14, U0>(c, "Tp14", "0cfé9/Y0é.b");
        tp::<Tp15, u64>(c, "Tp15", "éZéée☃cdéZé");
        tp::<Tp16, String>(c, "Tp16", ".é-/XZ f 1f");
        tp::<Tp20, A8>(c, "Tp20", "éaé");
        tp::<Tp21, u8>(c, "Tp21", "XeX9/");
        tp::<Tp22, A3>(c, "Tp22", "Xbde 00caag");
        tp::<Tp23, ()>(c, "Tp23", "0X /dZ☃9g");
        tp::<Tp24, ()>(c, "Tp24", "11");
        tp::<Tp27, [u8; 4]>(c, "Tp27", "Zd 1.");
        tp::<Tp29, E0>(c, "Tp29", "déd");
        tp::<Tp31, E1>(c, "Tp31", "c0d0 1c.e");
        tp_list(c, "t35", &LIST, TopicDirection::ToServer, true, &[("be☃/", Key::for_path::<()>("be☃/")), ("ZZ _.é☃☃", Key::for_path::<u8>("ZZ _.é☃☃")), ("Y9-Y9", Key::for_path::<String>("Y9-Y9")), ("/0Y1Zgbdcf", Key::for_path::<N1>("/0Y1Zgbdcf")), ("0Ya .a0Y/☃gZcfgY.", Key::for_path::<T0>("0Ya .a0Y/☃gZcfgY.")), ("ZZ/ég/fZ091b☃9_def☃ dYc1_0c1/0☃9/g.b☃__ab9 90Zcd☃0YZZdg☃☃f010/11g -/.eb0 Z0cZf ée0c_ggZaeX1Xgdff-YXZ.ZeaZb-_ é☃/-0gY0☃bc☃. /YfYgb☃", Key::for_path::<A8>("ZZ/ég/fZ091b☃9_def☃ dYc1_0c1/0☃9/g.b☃__ab9 90Zcd☃0YZZdg☃☃f010/11g -/.eb0 Z0cZf ée0c_ggZaeX1Xgdff-YXZ.ZeaZb-_ é☃/-0gY0☃bc☃. /YfYgb☃")), ("d9☃b1dXb", Key::for_path::<A4>("d9☃b1dXb")), ("99", Key::for_path::<T0>("99")), ("0cfé9/Y0é.b", Key::for_path::<U0>("0cfé9/Y0é.b")), ("éZéée☃cdéZé", Key::for_path::<u64>("éZéée☃cdéZé")), (".é-/XZ f 1f", Key::for_path::<String>(".é-/XZ f 1f")), ("éaé", Key::for_path::<A8>("éaé")), ("XeX9/", Key::for_path::<u8>("XeX9/")), ("Xbde 00caag", Key::for_path::<A3>("Xbde 00caag")), ("0X /dZ☃9g", Key::for_path::<()>("0X /dZ☃9g")), ("11", Key::for_path::<()>("11")), ("Zd 1.", Key::for_path::<[u8; 4]>("Zd 1.")), ("déd", Key::for_path::<E0>("déd")), ("c0d0 1c.e", Key::for_path::<E1>("c0d0 1c.e"))], &[<() as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <() as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA]);
    }
}
mod e36 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        | EndpointTy | RequestTy | ResponseTy | Path | 
        | --- | --- | --- | --- | 
        | Ep0 | (A3, E0, u16) | N1 | "" | 
        | Ep1 | B1<'a> | () | "a-Xa_1b" | 
        | Ep2 | A8 | char | "☃Ze" | 
        | Ep3 | A3 | A0 | "1begcf" | 
        | Ep4 | B1<'a> | char | "ae_gfZ0edb" | 
        | Ep5 | () | bool | "-gZ" | 
        | Ep6 | A8 | B0<'b> | "e.f1gX Yb" | 
        | Ep7 | (u8, A2) | (u8, A2) | "9é" | 
        | Ep8 | A1 | U0 | "éb/☃f_g" | 
        | Ep9 | [[u8; 2]; 3] | T0 | "__e" | 
        | Ep10 | u8 | f32 | "00X-ac_d1gé" | 
        | Ep11 | i8 | A7 | " gb-ebf" | 
        | Ep12 | i8 | A7 | "bZ☃90..Ze0-.f☃g1d.0X__ef-ebf--gaZd1☃0☃_-- dY90 0gXeé-caXecd ab-é /ZdXXeeXb1fgaébZ1gX0é-9fgb é_1Zf09-Z /1d0bX/☃b☃-_1a.b0df--d_X0d1b" | 
        | Ep13 | A8 | () | "acg0 gc" | 
        | Ep14 | N1 | f32 | "☃Z" | 
        | Ep15 | [u8; 4] | [[u8; 2]; 3] | "bX9" | 
        | Ep16 | A0 | E0 | "/b-" | 
        | Ep17 | B1<'a> | A6 | "e" | 
        | Ep18 | N1 | i8 | "ffb.☃ac99 /YXcédéeb☃-9c0☃cacgX1./00daYf1" | 
        | Ep19 | A6 | [A1; 2] | "-cécd" | 
        | Ep20 | A4 | [u8; 4] | "ZgY☃_c" | 
        | Ep21 | A1 | A7 | "c1-cdecc_" | 
        | Ep22 | B1<'a> | B0<'b> | "cXéXé" | 
        | Ep23 | A4 | [[u8; 2]; 3] | "-.YZgeZa/" | 
        | Ep24 | B0<'a> | B0<'b> | "cg" | 
        | Ep25 | A4 | U0 | "g" | 
        | Ep26 | A4 | A8 | " é.ee" | 
        | Ep27 | A5 | U0 | "eZf/Ya/0" | 
        | Ep28 | A3 | () | "eb_df9Z.a" | 
        | Ep29 | A5 | B1<'b> | "/c9fX" | 
        | Ep30 | u16 | i8 | "/X1fg" | 
        | Ep31 | B1<'a> | B1<'b> | "_X_☃9céd." | 
        | Ep32 | A2 | f32 | "0Yfg_☃/" | 
        | Ep33 | A8 | String | "0ffdf/☃gcf-" | 
        | Ep34 | A7 | A4 | "cf" | 
        | Ep35 | String | U0 | "c_cc-. gc" | 
        | Ep36 | N1 | E0 | "e.1aéc" | 
        | Ep37 | E1 | A8 | " /☃1_ 9" | 
        | Ep38 | U0 | B1<'b> | "Z00_ " | 
        | Ep39 | E0 | [A1; 2] | "-b☃d1☃g" | 
        | Ep40 | i64 | A2 | "déY" | 
        | Ep41 | E1 | A5 | "Y9ge_bf--éc-" | 
        | Ep42 | String | E0 | "g_ZZ. Y019 10..☃0" | 
        | Ep43 | (A3, E0, u16) | A3 | "b☃0XY1_-.10b/X Z-_Xe0fe0/febéX1b eec/_-a" | 
        | Ep44 | f32 | E1 | "☃" | 
        | Ep45 | N1 | A4 | "ceZZ " | 
        | Ep46 | [u8; 4] | B1<'b> | "é-é☃f☃ée☃ YgedX1Y-f d01/0X.10☃/a0-X☃/.0d d☃g☃ébZd_-c☃fcé/beX☃dbg01da/-.g01.f__e-e .é.b_☃.e.YXffbe0Zd-é-aeXbecéZXfef..é9-é-é9_9df/Z" | 
        | Ep47 | A4 | T0 | "c_a☃/" | 
        | Ep48 | [u8; 4] | E1 | "Zb_-11bX." | 
        | Ep49 | A1 | A5 | "aad.f0" | 
        | Ep50 | u64 | () | "aY.é1☃" | 
        | Ep51 | B1<'a> | N1 | "/f bc" | 
        | Ep52 | bool | () | "cg11/éY_" | 
        | Ep53 | (u8, A2) | [[u8; 2]; 3] | "ae" | 
        | Ep54 | N1 | A2 | "./1_ éY1f10c" | 
        | Ep55 | (u8, A2) | A3 | "._Xda/. " | 
        | Ep56 | E1 | () | "adY" | 
        | Ep57 | A7 | f32 | "_be☃_" | 
        | Ep58 | A2 | A7 | "e-/gX" | 
        | Ep59 | B1<'a> | u16 | "_caX_Z☃/g é" | 
        | Ep60 | () | A7 | "ee" | 
        | Ep61 | A3 | E1 | "adbZ" | 
        | Ep62 | E1 | A5 | "-d9fc é9e/-/Z.fX11/1YaZ gX☃0c_.e9-YYce☃0e.g_b/0aé☃bdcX1☃☃d.ge1a0_g.XZ0/a.//cfb/Z0/ _Z_XYdfcYb9☃ dY.é d_9Z/eY -agY0-cgg☃11XYZ0ZYa.a" | 
        | Ep63 | N1 | N1 | "Yca/Z.9e" | 
        | Ep64 | (A3, E0, u16) | (u8, A2) | "Y0.b_-00c" | 
        | Ep65 | u16 | T0 | "c1XX-egYZ" | 
        | Ep66 | A0 | A8 | "1.Y9" | 
        | Ep67 | A5 | f32 | "-f" | 
        | Ep68 | A1 | B1<'b> | "d_e" | 
        | Ep69 | [[u8; 2]; 3] | char | "-0X" | 
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep0, (A3, E0, u16), N1>(c, "Ep0", "");
        ep::<Ep1, B1, ()>(c, "Ep1", "a-Xa_1b");
        ep::<Ep2, A8, char>(c, "Ep2", "☃Ze");
        ep::<Ep3, A3, A0>(c, "Ep3", "1begcf");
        ep::<Ep4, B1, char>(c, "Ep4", "ae_gfZ0edb");
        ep::<Ep5, (), bool>(c, "Ep5", "-gZ");
        ep::<Ep6, A8, B0>(c, "Ep6", "e.f1gX Yb");
        ep::<Ep7, (u8, A2), (u8, A2)>(c, "Ep7", "9é");
        ep::<Ep8, A1, U0>(c, "Ep8", "éb/☃f_g");
        ep::<Ep9, [[u8; 2]; 3], T0>(c, "Ep9", "__e");
        ep::<Ep10, u8, f32>(c, "Ep10", "00X-ac_d1gé");
        ep::<Ep11, i8, A7>(c, "Ep11", " gb-ebf");
        ep::<Ep12, i8, A7>(c, "Ep12", "bZ☃90..Ze0-.f☃g1d.0X__ef-ebf--gaZd1☃0☃_-- dY90 0gXeé-caXecd ab-é /ZdXXeeXb1fgaébZ1gX0é-9fgb é_1Zf09-Z /1d0bX/☃b☃-_1a.b0df--d_X0d1b");
        ep::<Ep13, A8, ()>(c, "Ep13", "acg0 gc");
        ep::<Ep14, N1, f32>(c, "Ep14", "☃Z");
        ep::<Ep15, [u8; 4], [[u8; 2]; 3]>(c, "Ep15", "bX9");
        ep::<Ep16, A0, E0>(c, "Ep16", "/b-");
        ep::<Ep17, B1, A6>(c, "Ep17", "e");
        ep::<Ep18, N1, i8>(c, "Ep18", "ffb.☃ac99 /YXcédéeb☃-9c0☃cacgX1./00daYf1");
        ep::<Ep19, A6, [A1; 2]>(c, "Ep19", "-cécd");
        ep::<Ep20, A4, [u8; 4]>(c, "Ep20", "ZgY☃_c");
        ep::<Ep21, A1, A7>(c, "Ep21", "c1-cdecc_");
        ep::<Ep22, B1, B0>(c, "Ep22", "cXéXé");
        ep::<Ep23, A4, [[u8; 2]; 3]>(c, "Ep23", "-.YZgeZa/");
        ep::<Ep24, B0, B0>(c, "Ep24", "cg");
        ep::<Ep25, A4, U0>(c, "Ep25", "g");
        ep::<Ep26, A4, A8>(c, "Ep26", " é.ee");
        ep::<Ep27, A5, U0>(c, "Ep27", "eZf/Ya/0");
        ep::<Ep28, A3, ()>(c, "Ep28", "eb_df9Z.a");
        ep::<Ep29, A5, B1>(c, "Ep29", "/c9fX");
        ep::<Ep30, u16, i8>(c, "Ep30", "/X1fg");
        ep::<Ep31, B1, B1>(c, "Ep31", "_X_☃9céd.");
        ep::<Ep32, A2, f32>(c, "Ep32", "0Yfg_☃/");
        ep::<Ep33, A8, String>(c, "Ep33", "0ffdf/☃gcf-");
        ep::<Ep34, A7, A4>(c, "Ep34", "cf");
        ep::<Ep35, String, U0>(c, "Ep35", "c_cc-. gc");
        ep::<Ep36, N1, E0>(c, "Ep36", "e.1aéc");
        ep::<Ep37, E1, A8>(c, "Ep37", " /☃1_ 9");
        ep::<Ep38, U0, B1>(c, "Ep38", "Z00_ ");
        ep::<Ep39, E0, [A1; 2]>(c, "Ep39", "-b☃d1☃g");
        ep::<Ep40, i64, A2>(c, "Ep40", "déY");
        ep::<Ep41, E1, A5>(c, "Ep41", "Y9ge_bf--éc-");
        ep::<Ep42, String, E0>(c, "Ep42", "g_ZZ. Y019 10..☃0");
        ep::<Ep43, (A3, E0, u16), A3>(c, "Ep43", "b☃0XY1_-.10b/X Z-_Xe0fe0/febéX1b eec/_-a");
        ep::<Ep44, f32, E1>(c, "Ep44", "☃");
        ep::<Ep45, N1, A4>(c, "Ep45", "ceZZ ");
        ep::<Ep46, [u8; 4], B1>(c, "Ep46", "é-é☃f☃ée☃ YgedX1Y-f d01/0X.10☃/a0-X☃/.0d d☃g☃ébZd_-c☃fcé/beX☃dbg01da/-.g01.f__e-e .é.b_☃.e.YXffbe0Zd-é-aeXbecéZXfef..é9-é-é9_9df/Z");
        ep::<Ep47, A4, T0>(c, "Ep47", "c_a☃/");
        ep::<Ep48, [u8; 4], E1>(c, "Ep48", "Zb_-11bX.");
        ep::<Ep49, A1, A5>(c, "Ep49", "aad.f0");
        ep::<Ep50, u64, ()>(c, "Ep50", "aY.é1☃");
        ep::<Ep51, B1, N1>(c, "Ep51", "/f bc");
        ep::<Ep52, bool, ()>(c, "Ep52", "cg11/éY_");
        ep::<Ep53, (u8, A2), [[u8; 2]; 3]>(c, "Ep53", "ae");
        ep::<Ep54, N1, A2>(c, "Ep54", "./1_ éY1f10c");
        ep::<Ep55, (u8, A2), A3>(c, "Ep55", "._Xda/. ");
        ep::<Ep56, E1, ()>(c, "Ep56", "adY");
        ep::<Ep57, A7, f32>(c, "Ep57", "_be☃_");
        ep::<Ep58, A2, A7>(c, "Ep58", "e-/gX");
        ep::<Ep59, B1, u16>(c, "Ep59", "_caX_Z☃/g é");
        ep::<Ep60, (), A7>(c, "Ep60", "ee");
        ep::<Ep61, A3, E1>(c, "Ep61", "adbZ");
        ep::<Ep62, E1, A5>(c, "Ep62", "-d9fc é9e/-/Z.fX11/1YaZ gX☃0c_.e9-YYce☃0e.g_b/0aé☃bdcX1☃☃d.ge1a0_g.XZ0/a.//cfb/Z0/ _Z_XYdfcYb9☃ dY.é d_9Z/eY -agY0-cgg☃11XYZ0ZYa.a");
        ep::<Ep63, N1, N1>(c, "Ep63", "Yca/Z.9e");
        ep::<Ep64, (A3, E0, u16), (u8, A2)>(c, "Ep64", "Y0.b_-00c");
        ep::<Ep65, u16, T0>(c, "Ep65", "c1XX-egYZ");
        ep::<Ep66, A0, A8>(c, "Ep66", "1.Y9");
        ep::<Ep67, A5, f32>(c, "Ep67", "-f");
        ep::<Ep68, A1, B1>(c, "Ep68", "d_e");
        ep::<Ep69, [[u8; 2]; 3], char>(c, "Ep69", "-0X");
        ep_list(c, "e36", &LIST, true, &[("", Key::for_path::<(A3, E0, u16)>(""), Key::for_path::<N1>("")), ("a-Xa_1b", Key::for_path::<B1>("a-Xa_1b"), Key::for_path::<()>("a-Xa_1b")), ("☃Ze", Key::for_path::<A8>("☃Ze"), Key::for_path::<char>("☃Ze")), ("1begcf", Key::for_path::<A3>("1begcf"), Key::for_path::<A0>("1begcf")), ("ae_gfZ0edb", Key::for_path::<B1>("ae_gfZ0edb"), Key::for_path::<char>("ae_gfZ0edb")), ("-gZ", Key::for_path::<()>("-gZ"), Key::for_path::<bool>("-gZ")), ("e.f1gX Yb", Key::for_path::<A8>("e.f1gX Yb"), Key::for_path::<B0>("e.f1gX Yb")), ("9é", Key::for_path::<(u8, A2)>("9é"), Key::for_path::<(u8, A2)>("9é")), ("éb/☃f_g", Key::for_path::<A1>("éb/☃f_g"), Key::for_path::<U0>("éb/☃f_g")), ("__e", Key::for_path::<[[u8; 2]; 3]>("__e"), Key::for_path::<T0>("__e")), ("00X-ac_d1gé", Key::for_path::<u8>("00X-ac_d1gé"), Key::for_path::<f32>("00X-ac_d1gé")), (" gb-ebf", Key::for_path::<i8>(" gb-ebf"), Key::for_path::<A7>(" gb-ebf")), ("bZ☃90..Ze0-.f☃g1d.0X__ef-ebf--gaZd1☃0☃_-- dY90 0gXeé-caXecd ab-é /ZdXXeeXb1fgaébZ1gX0é-9fgb é_1Zf09-Z /1d0bX/☃b☃-_1a.b0df--d_X0d1b", Key::for_path::<i8>("bZ☃90..Ze0-.f☃g1d.0X__ef-ebf--gaZd1☃0☃_-- dY90 0gXeé-caXecd ab-é /ZdXXeeXb1fgaébZ1gX0é-9fgb é_1Zf09-Z /1d0bX/☃b☃-_1a.b0df--d_X0d1b"), Key::for_path::<A7>("bZ☃90..Ze0-.f☃g1d.0X__ef-ebf--gaZd1☃0☃_-- dY90 0gXeé-caXecd ab-é /ZdXXeeXb1fgaébZ1gX0é-9fgb é_1Zf09-Z /1d0bX/☃b☃-_1a.b0df--d_X0d1b")), ("acg0 gc", Key::for_path::<A8>("acg0 gc"), Key::for_path::<()>("acg0 gc")), ("☃Z", Key::for_path::<N1>("☃Z"), Key::for_path::<f32>("☃Z")), ("bX9", Key::for_path::<[u8; 4]>("bX9"), Key::for_path::<[[u8; 2]; 3]>("bX9")), ("/b-", Key::for_path::<A0>("/b-"), Key::for_path::<E0>("/b-")), ("e", Key::for_path::<B1>("e"), Key::for_path::<A6>("e")), ("ffb.☃ac99 /YXcédéeb☃-9c0☃cacgX1./00daYf1", Key::for_path::<N1>("ffb.☃ac99 /YXcédéeb☃-9c0☃cacgX1./00daYf1"), Key::for_path::<i8>("ffb.☃ac99 /YXcédéeb☃-9c0☃cacgX1./00daYf1")), ("-cécd", Key::for_path::<A6>("-cécd"), Key::for_path::<[A1; 2]>("-cécd")), ("ZgY☃_c", Key::for_path::<A4>("ZgY☃_c"), Key::for_path::<[u8; 4]>("ZgY☃_c")), ("c1-cdecc_", Key::for_path::<A1>("c1-cdecc_"), Key::for_path::<A7>("c1-cdecc_")), ("cXéXé", Key::for_path::<B1>("cXéXé"), Key::for_path::<B0>("cXéXé")), ("-.YZgeZa/", Key::for_path::<A4>("-.YZgeZa/"), Key::for_path::<[[u8; 2]; 3]>("-.YZgeZa/")), ("cg", Key::for_path::<B0>("cg"), Key::for_path::<B0>("cg")), ("g", Key::for_path::<A4>("g"), Key::for_path::<U0>("g")), (" é.ee", Key::for_path::<A4>(" é.ee"), Key::for_path::<A8>(" é.ee")), ("eZf/Ya/0", Key::for_path::<A5>("eZf/Ya/0"), Key::for_path::<U0>("eZf/Ya/0")), ("eb_df9Z.a", Key::for_path::<A3>("eb_df9Z.a"), Key::for_path::<()>("eb_df9Z.a")), ("/c9fX", Key::for_path::<A5>("/c9fX"), Key::for_path::<B1>("/c9fX")), ("/X1fg", Key::for_path::<u16>("/X1fg"), Key::for_path::<i8>("/X1fg")), ("_X_☃9céd.", Key::for_path::<B1>("_X_☃9céd."), Key::for_path::<B1>("_X_☃9céd.")), ("0Yfg_☃/", Key::for_path::<A2>("0Yfg_☃/"), Key::for_path::<f32>("0Yfg_☃/")), ("0ffdf/☃gcf-", Key::for_path::<A8>("0ffdf/☃gcf-"), Key::for_path::<String>("0ffdf/☃gcf-")), ("cf", Key::for_path::<A7>("cf"), Key::for_path::<A4>("cf")), ("c_cc-. gc", Key::for_path::<String>("c_cc-. gc"), Key::for_path::<U0>("c_cc-. gc")), ("e.1aéc", Key::for_path::<N1>("e.1aéc"), Key::for_path::<E0>("e.1aéc")), (" /☃1_ 9", Key::for_path::<E1>(" /☃1_ 9"), Key::for_path::<A8>(" /☃1_ 9")), ("Z00_ ", Key::for_path::<U0>("Z00_ "), Key::for_path::<B1>("Z00_ ")), ("-b☃d1☃g", Key::for_path::<E0>("-b☃d1☃g"), Key::for_path::<[A1; 2]>("-b☃d1☃g")), ("déY", Key::for_path::<i64>("déY"), Key::for_path::<A2>("déY")), ("Y9ge_bf--éc-", Key::for_path::<E1>("Y9ge_bf--éc-"), Key::for_path::<A5>("Y9ge_bf--éc-")), ("g_ZZ. Y019 10..☃0", Key::for_path::<String>("g_ZZ. Y019 10..☃0"), Key::for_path::<E0>("g_ZZ. Y019 10..☃0")), ("b☃0XY1_-.10b/X Z-_Xe0fe0/febéX1b eec/_-a", Key::for_path::<(A3, E0, u16)>("b☃0XY1_-.10b/X Z-_Xe0fe0/febéX1b eec/_-a"), Key::for_path::<A3>("b☃0XY1_-.10b/X Z-_Xe0fe0/febéX1b eec/_-a")), ("☃", Key::for_path::<f32>("☃"), Key::for_path::<E1>("☃")), ("ceZZ ", Key::for_path::<N1>("ceZZ "), Key::for_path::<A4>("ceZZ ")), ("é-é☃f☃ée☃ YgedX1Y-f d01/0X.10☃/a0-X☃/.0d d☃g☃ébZd_-c☃fcé/beX☃dbg01da/-.g01.f__e-e .é.b_☃.e.YXffbe0Zd-é-aeXbecéZXfef..é9-é-é9_9df/Z", Key::for_path::<[u8; 4]>("é-é☃f☃ée☃ YgedX1Y-f d01/0X.10☃/a0-X☃/.0d d☃g☃ébZd_-c☃fcé/beX☃dbg01da/-.g01.f__e-e .é.b_☃.e.YXffbe0Zd-é-aeXbecéZXfef..é9-é-é9_9df/Z"), Key::for_path::<B1>("é-é☃f☃ée☃ YgedX1Y-f d01/0X.10☃/a0-X☃/.0d d☃g☃ébZd_-c☃fcé/beX☃dbg01da/-.g01.f__e-e .é.b_☃.e.YXffbe0Zd-é-aeXbecéZXfef..é9-é-é9_9df/Z")), ("c_a☃/", Key::for_path::<A4>("c_a☃/"), Key::for_path::<T0>("c_a☃/")), ("Zb_-11bX.", Key::for_path::<[u8; 4]>("Zb_-11bX."), Key::for_path::<E1>("Zb_-11bX.")), ("aad.f0", Key::for_path::<A1>("aad.f0"), Key::for_path::<A5>("aad.f0")), ("aY.é1☃", Key::for_path::<u64>("aY.é1☃"), Key::for_path::<()>("aY.é1☃")), ("/f bc", Key::for_path::<B1>("/f bc"), Key::for_path::<N1>("/f bc")), ("cg11/éY_", Key::for_path::<bool>("cg11/éY_"), Key::for_path::<()>("cg11/éY_")), ("ae", Key::for_path::<(u8, A2)>("ae"), Key::for_path::<[[u8; 2]; 3]>("ae")), ("./1_ éY1f10c", Key::for_path::<N1>("./1_ éY1f10c"), Key::for_path::<A2>("./1_ éY1f10c")), ("._Xda/. ", Key::for_path::<(u8, A2)>("._Xda/. "), Key::for_path::<A3>("._Xda/. ")), ("adY", Key::for_path::<E1>("adY"), Key::for_path::<()>("adY")), ("_be☃_", Key::for_path::<A7>("_be☃_"), Key::for_path::<f32>("_be☃_")), ("e-/gX", Key::for_path::<A2>("e-/gX"), Key::for_path::<A7>("e-/gX")), ("_caX_Z☃/g é", Key::for_path::<B1>("_caX_Z☃/g é"), Key::for_path::<u16>("_caX_Z☃/g é")), ("ee", Key::for_path::<()>("ee"), Key::for_path::<A7>("ee")), ("adbZ", Key::for_path::<A3>("adbZ"), Key::for_path::<E1>("adbZ")), ("-d9fc é9e/-/Z.fX11/1YaZ gX☃0c_.e9-YYce☃0e.g_b/0aé☃bdcX1☃☃d.ge1a0_g.XZ0/a.//cfb/Z0/ _Z_XYdfcYb9☃ dY.é d_9Z/eY -agY0-cgg☃11XYZ0ZYa.a", Key::for_path::<E1>("-d9fc é9e/-/Z.fX11/1YaZ gX☃0c_.e9-YYce☃0e.g_b/0aé☃bdcX1☃☃d.ge1a0_g.XZ0/a.//cfb/Z0/ _Z_XYdfcYb9☃ dY.é d_9Z/eY -agY0-cgg☃11XYZ0ZYa.a"), Key::for_path::<A5>("-d9fc é9e/-/Z.fX11/1YaZ gX☃0c_.e9-YYce☃0e.g_b/0aé☃bdcX1☃☃d.ge1a0_g.XZ0/a.//cfb/Z0/ _Z_XYdfcYb9☃ dY.é d_9Z/eY -agY0-cgg☃11XYZ0ZYa.a")), ("Yca/Z.9e", Key::for_path::<N1>("Yca/Z.9e"), Key::for_path::<N1>("Yca/Z.9e")), ("Y0.b_-00c", Key::for_path::<(A3, E0, u16)>("Y0.b_-00c"), Key::for_path::<(u8, A2)>("Y0.b_-00c")), ("c1XX-egYZ", Key::for_path::<u16>("c1XX-egYZ"), Key::for_path::<T0>("c1XX-egYZ")), ("1.Y9", Key::for_path::<A0>("1.Y9"), Key::for_path::<A8>("1.Y9")), ("-f", Key::for_path::<A5>("-f"), Key::for_path::<f32>("-f")), ("d_e", Key::for_path::<A1>("d_e"), Key::for_path::<B1>("d_e")), ("-0X", Key::for_path::<[[u8; 2]; 3]>("-0X"), Key::for_path::<char>("-0X"))], &[<(A3, E0, u16) as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <char as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <char as Schema>::SCHEMA, <() as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <u16 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <() as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <u16 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <u16 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <char as Schema>::SCHEMA]);
    }
}
mod t36 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToClient;
        | TopicTy | MessageTy | Path | 
        | --- | --- | --- | 
        | Tp0 | i64 | "Xé01fYg_cYd" | 
        | Tp1 | B1<'a> | "X-☃" | 
        | Tp2 | E0 | "ge-_/..é☃X.Zebd/Z" | 
        | Tp3 | B1<'a> | " 1.X/Yd-e-" | 
        | Tp4 | A2 | "Xgd Y -dd" | 
        | Tp5 | u16 | "b/ a.bX1bgc" | 
        | Tp6 | A2 | "eZ9c a1cXb9b" | 
        | Tp7 | B1<'a> | "f9g09ge0_0eb/ed☃d☃Zd /☃ba cYf 00999ZfZ0/10.ccccgad.écebXYgX19ébfae-g/a.b-☃9_a☃☃9gYe-X-é1.eb☃.ad1g 0Z_ cae-cd-Y-eéa_ _19.bgfd..a.cd" | 
        | Tp8 | u16 | "-" | 
        | Tp9 | A7 | "-1d☃e" | 
        | Tp10 | A5 | "_b1ZdZ" | 
        | Tp11 | char | "gaé/9é" | 
        | Tp12 | () | "ecf00e9c" | 
        | Tp13 | A0 | "bf☃0aX g_ Z/fYYaféadX_a XYf☃1af1-Z-☃. 9_" | 
        | Tp14 | A8 | "féa0cZé/acZ--Xfééd_d9 dZ.fb éca9/1bé☃e/9/9Z9bcad0☃Yd☃/./e c_-ba/..dbbcaé0_gX.☃1.b0é-_ /XbY1-af9bfX9f_eXgY☃9ce_fe0/ b /1c1ébb09Za0/" | 
        | Tp15 | A8 | "☃Y☃cXd_éZ" | 
        | Tp16 | [A1; 2] | "-/b a_g.☃e" | 
        | Tp17 | A6 | "" | 
        | Tp18 | [[u8; 2]; 3] | "d1.-/céXXb" | 
        | Tp19 | N0 | "é-b _/1é_é 9gb-YY-ga 9d-dcXgbZdXfZ_c/Y f" | 
        | Tp20 | B0<'a> | "a" | 
        | Tp21 | B0<'a> | "9_.X" | 
        | Tp22 | u32 | "é" | 
        | Tp23 | u16 | " bZb☃bé1.0" | 
        | Tp24 | E1 | "Ye g_é_Ze" | 
        | Tp25 | bool | "daXd10cd/☃9c_☃fggYgéagY-☃fécef9_gb.90c-X-é☃.ae1c09_dé0YéfXY-bcd_g☃dé☃Z9éZ_☃-eebcb_9X-Z/Yaa-g1gfYc/9fg0c1d._☃ .a99gad.e-Zcéa☃c.c990" | 
        | Tp26 | B1<'a> | "-égaZ9Z☃b/0c_é☃☃Z a1 f ..-Yé1e☃_X_Xé0Yge" | 
        | Tp27 | (u8, A2) | "-fdgaeeb_gg" | 
        | Tp28 | B0<'a> | "a_" | 
        | Tp29 | A6 | "ce" | 
        | Tp30 | B1<'a> | "éb." | 
        | Tp31 | A6 | "1é  .__1bgX9" | 
        | Tp32 | B1<'a> | "f/" | 
        | Tp33 | A1 | "Yc//_ca☃cg  cYd-9Zb /0e01f1/ccYc/_b._. 1" | 
        | Tp34 | String | "Z0ggg☃" | 
        | Tp35 | E1 | "eac0g-g9" | 
        | Tp36 | A3 | "d" | 
        | Tp37 | u64 | "é0Xf" | 
        | Tp38 | u32 | ".eéZg1éZ☃ef-Y_g☃_   ☃aZfbbdfZ 90a .Yf9Yb_aX_. ZX  d-._☃d/1c0d☃fX.. -YZa.fgYb0/é☃/aZ Yd-fX./é109g9.☃dZ_/gé1éc☃ZZffY.b☃fcYYY1gY/é00d" | 
        | Tp39 | u64 | "Z☃-Z/" | 
        | Tp40 | A4 | "édfX19-é" | 
        | Tp41 | E0 | "g 1fZde" | 
        | Tp42 | E0 | "/-/é1☃g YbgX" | 
        | Tp43 | [A1; 2] | "d1bZXb-9_f" | 
        | Tp44 | B1<'a> | "-.0☃b-Y Z.ef_Xc9a" | 
        | Tp45 | char | "d9Y -/9éad1g 0XZd" | 
        | Tp46 | A5 | "ée/.c1dé /1c" | 
        | Tp47 | [u8; 4] | "e_" | 
        | Tp48 | (A3, E0, u16) | "Z//_" | 
        | Tp49 | N1 | "c09Z9" | 
        | Tp50 | B0<'a> | "/g-b1" | 
        | Tp51 | (A3, E0, u16) | "9_bYc-☃a☃Y☃Zcff00eYabb_é9  g0/Yafgac_YXc" | 
        | Tp52 | A5 | "gaa" | 
        | Tp53 | (A3, E0, u16) | "ba/9cdéeeéZa.a☃gXaba 0 éca19e9☃Z☃☃ dgeZ0.9aegYZbZXe_/ d_ eg.0b9agf_a☃é  /ga  e--f☃d__☃1./_d1g0dZé1 f.dbd1a1☃a  é1cf-☃☃bfd-/☃éégacd" | 
        | Tp54 | [A1; 2] | "1 /Yg1b9c --" | 
        | Tp55 | () | "ecbY-d☃cé☃" | 
        | Tp56 | B0<'a> | "_☃1" | 
        | Tp57 | B0<'a> | "/1bgfcZ//-1f9b9e9" | 
        | Tp58 | i8 | "_0XZeX" | 
        | Tp59 | U0 | "eX/.X☃df" | 
        | Tp60 | u8 | "☃X1 Y" | 
        | Tp61 | E1 | "/0g/" | 
        | Tp62 | T0 | "0d9féea.ccéf" | 
        | Tp63 | (u8, A2) | "_11.☃aY9X" | 
        | Tp64 | N1 | "0a fgaZ." | 
        | Tp65 | A6 | "beé.☃d_9b" | 
        | Tp66 | u8 | "g/bc1/Z " | 
        | Tp67 | B0<'a> | "0_9dbZZéYY/-" | 
        | Tp68 | (u8, A2) | "cé- _eZ0X1" | 
        | Tp69 | A8 | "9ééfbY" | 
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp0, i64>(c, "Tp0", "Xé01fYg_cYd");
        tp::<Tp1, B1>(c, "Tp1", "X-☃");
        tp::<Tp2, E0>(c, "Tp2", "ge-_/..é☃X.Zebd/Z");
        tp::<Tp3, B1>(c, "Tp3", " 1.X/Yd-e-");
        tp::<Tp4, A2>(c, "Tp4", "Xgd Y -dd");
        tp::<Tp5, u16>(c, "Tp5", "b/ a.bX1bgc");
        tp::<Tp6, A2>(c, "Tp6", "eZ9c a1cXb9b");
        tp::<Tp7, B1>(c, "Tp7", "f9g09ge0_0eb/ed☃d☃Zd /☃ba cYf 00999ZfZ0/10.ccccgad.écebXYgX19ébfae-g/a.b-☃9_a☃☃9gYe-X-é1.eb☃.ad1g 0Z_ cae-cd-Y-eéa_ _19.bgfd..a.cd");
        tp::<Tp8, u16>(c, "Tp8", "-");
        tp::<Tp9, A7>(c, "Tp9", "-1d☃e");
        tp::<Tp10, A5>(c, "Tp10", "_b1ZdZ");
        tp::<Tp11, char>(c, "Tp11", "gaé/9é");
        tp::<Tp12, ()>(c, "Tp12", "ecf00e9c");
        tp::<Tp13, A0>(c, "Tp13", "bf☃0aX g_ Z/fYYaféadX_a XYf☃1af1-Z-☃. 9_");
        tp::<Tp14, A8>(c, "Tp14", "féa0cZé/acZ--Xfééd_d9 dZ.fb éca9/1bé☃e/9/9Z9bcad0☃Yd☃/./e c_-ba/..dbbcaé0_gX.☃1.b0é-_ /XbY1-af9bfX9f_eXgY☃9ce_fe0/ b /1c1ébb09Za0/");
        tp::<Tp15, A8>(c, "Tp15", "☃Y☃cXd_éZ");
        tp::<Tp16, [A1; 2]>(c, "Tp16", "-/b a_g.☃e");
        tp::<Tp17, A6>(c, "Tp17", "");
        tp::<Tp18, [[u8; 2]; 3]>(c, "Tp18", "d1.-/céXXb");
        tp::<Tp19, N0>(c, "Tp19", "é-b _/1é_é 9gb-YY-ga 9d-dcXgbZdXfZ_c/Y f");
        tp::<Tp20, B0>(c, "Tp20", "a");
        tp::<Tp21, B0>(c, "Tp21", "9_.X");
        tp::<Tp22, u32>(c, "Tp22", "é");
        tp::<Tp23, u16>(c, "Tp23", " bZb☃bé1.0");
        tp::<Tp24, E1>(c, "Tp24", "Ye g_é_Ze");
        tp::<Tp25, bool>(c, "Tp25", "daXd10cd/☃9c_☃fggYgéagY-☃fécef9_gb.90c-X-é☃.ae1c09_dé0YéfXY-bcd_g☃dé☃Z9éZ_☃-eebcb_9X-Z/Yaa-g1gfYc/9fg0c1d._☃ .a99gad.e-Zcéa☃c.c990");
        tp::<Tp26, B1>(c, "Tp26", "-égaZ9Z☃b/0c_é☃☃Z a1 f ..-Yé1e☃_X_Xé0Yge");
        tp::<Tp27, (u8, A2)>(c, "Tp27", "-fdgaeeb_gg");
        tp::<Tp28, B0>(c, "Tp28", "a_");
        tp::<Tp29, A6>(c, "Tp29", "ce");
        tp::<Tp30, B1>(c, "Tp30", "éb.");
        tp::<Tp31, A6>(c, "Tp31", "1é  .__1bgX9");
        tp::<Tp32, B1>(c, "Tp32", "f/");
        tp::<Tp33, A1>(c, "Tp33", "Yc//_ca☃cg  cYd-9Zb /0e01f1/ccYc/_b._. 1");
        tp::<Tp34, String>(c, "Tp34", "Z0ggg☃");
        tp::<Tp35, E1>(c, "Tp35", "eac0g-g9");
        tp::<Tp36, A3>(c, "Tp36", "d");
        tp::<Tp37, u64>(c, "Tp37", "é0Xf");
        tp::<Tp38, u32>(c, "Tp38", ".eéZg1éZ☃ef-Y_g☃_   ☃aZfbbdfZ 90a .Yf9Yb_aX_. ZX  d-._☃d/1c0d☃fX.. -YZa.fgYb0/é☃/aZ Yd-fX./é109g9.☃dZ_/gé1éc☃ZZffY.b☃fcYYY1gY/é00d");
        tp::<Tp39, u64>(c, "Tp39", "Z☃-Z/");
        tp::<Tp40, A4>(c, "Tp40", "édfX19-é");
        tp::<Tp41, E0>(c, "Tp41", "g 1fZde");
        tp::<Tp42, E0>(c, "Tp42", "/-/é1☃g YbgX");
        tp::<Tp43, [A1; 2]>(c, "Tp43", "d1bZXb-9_f");
        tp::<Tp44, B1>(c, "Tp44", "-.0☃b-Y Z.ef_Xc9a");
        tp::<Tp45, char>(c, "Tp45", "d9Y -/9éad1g 0XZd");
        tp::<Tp46, A5>(c, "Tp46", "ée/.c1dé /1c");
        tp::<Tp47, [u8; 4]>(c, "Tp47", "e_");
        tp::<Tp48, (A3, E0, u16)>(c, "Tp48", "Z//_");
        tp::<Tp49, N1>(c, "Tp49", "c09Z9");
        tp::<Tp50, B0>(c, "Tp50", "/g-b1");
        tp::<Tp51, (A3, E0, u16)>(c, "Tp51", "9_bYc-☃a☃Y☃Zcff00eYabb_é9  g0/Yafgac_YXc");
        tp::<Tp52, A5>(c, "Tp52", "gaa");
        tp::<Tp53, (A3, E0, u16)>(c, "Tp53", "ba/9cdéeeéZa.a☃gXaba 0 éca19e9☃Z☃☃ dgeZ0.9aegYZbZXe_/ d_ eg.0b9agf_a☃é  /ga  e--f☃d__☃1./_d1g0dZé1 f.dbd1a1☃a  é1cf-☃☃bfd-/☃éégacd");
        tp::<Tp54, [A1; 2]>(c, "Tp54", "1 /Yg1b9c --");
        tp::<Tp55, ()>(c, "Tp55", "ecbY-d☃cé☃");
        tp::<Tp56, B0>(c, "Tp56", "_☃1");
        tp::<Tp57, B0>(c, "Tp57", "/1bgfcZ//-1f9b9e9");
        tp::<Tp58, i8>(c, "Tp58", "_0XZeX");
        tp::<Tp59, U0>(c, "Tp59", "eX/.X☃df");
        tp::<Tp60, u8>(c, "Tp60", "☃X1 Y");
        tp::<Tp61, E1>(c, "Tp61", "/0g/");
        tp::<Tp62, T0>(c, "Tp62", "0d9féea.ccéf");
        tp::<Tp63, (u8, A2)>(c, "Tp63", "_11.☃aY9X");
        tp::<Tp64, N1>(c, "Tp64", "0a fgaZ.");
        tp::<Tp65, A6>(c, "Tp65", "beé.☃d_9b");
        tp::<Tp66, u8>(c, "Tp66", "g/bc1/Z ");
        tp::<Tp67, B0>(c, "Tp67", "0_9dbZZéYY/-");
        tp::<Tp68, (u8, A2)>(c, "Tp68", "cé- _eZ0X1");
        tp::<Tp69, A8>(c, "Tp69", "9ééfbY");
        tp_list(c, "t36", &LIST, TopicDirection::ToClient, true, &[("Xé01fYg_cYd", Key::for_path::<i64>("Xé01fYg_cYd")), ("X-☃", Key::for_path::<B1>("X-☃")), ("ge-_/..é☃X.Zebd/Z", Key::for_path::<E0>("ge-_/..é☃X.Zebd/Z")), (" 1.X/Yd-e-", Key::for_path::<B1>(" 1.X/Yd-e-")), ("Xgd Y -dd", Key::for_path::<A2>("Xgd Y -dd")), ("b/ a.bX1bgc", Key::for_path::<u16>("b/ a.bX1bgc")), ("eZ9c a1cXb9b", Key::for_path::<A2>("eZ9c a1cXb9b")), ("f9g09ge0_0eb/ed☃d☃Zd /☃ba cYf 00999ZfZ0/10.ccccgad.écebXYgX19ébfae-g/a.b-☃9_a☃☃9gYe-X-é1.eb☃.ad1g 0Z_ cae-cd-Y-eéa_ _19.bgfd..a.cd", Key::for_path::<B1>("f9g09ge0_0eb/ed☃d☃Zd /☃ba cYf 00999ZfZ0/10.ccccgad.écebXYgX19ébfae-g/a.b-☃9_a☃☃9gYe-X-é1.eb☃.ad1g 0Z_ cae-cd-Y-eéa_ _19.bgfd..a.cd")), ("-", Key::for_path::<u16>("-")), ("-1d☃e", Key::for_path::<A7>("-1d☃e")), ("_b1ZdZ", Key::for_path::<A5>("_b1ZdZ")), ("gaé/9é", Key::for_path::<char>("gaé/9é")), ("ecf00e9c", Key::for_path::<()>("ecf00e9c")), ("bf☃0aX g_ Z/fYYaféadX_a XYf☃1af1-Z-☃. 9_", Key::for_path::<A0>("bf☃0aX g_ Z/fYYaféadX_a XYf☃1af1-Z-☃. 9_")), ("féa0cZé/acZ--Xfééd_d9 dZ.fb éca9/1bé☃e/9/9Z9bcad0☃Yd☃/./e c_-ba/..dbbcaé0_gX.☃1.b0é-_ /XbY1-af9bfX9f_eXgY☃9ce_fe0/ b /1c1ébb09Za0/", Key::for_path::<A8>("féa0cZé/acZ--Xfééd_d9 dZ.fb éca9/1bé☃e/9/9Z9bcad0☃Yd☃/./e c_-ba/..dbbcaé0_gX.☃1.b0é-_ /XbY1-af9bfX9f_eXgY☃9ce_fe0/ b /1c1ébb09Za0/")), ("☃Y☃cXd_éZ", Key::for_path::<A8>("☃Y☃cXd_éZ")), ("-/b a_g.☃e", Key::for_path::<[A1; 2]>("-/b a_g.☃e")), ("", Key::for_path::<A6>("")), ("d1.-/céXXb", Key::for_path::<[[u8; 2]; 3]>("d1.-/céXXb")), ("é-b _/1é_é 9gb-YY-ga 9d-dcXgbZdXfZ_c/Y f", Key::for_path::<N0>("é-b _/1é_é 9gb-YY-ga 9d-dcXgbZdXfZ_c/Y f")), ("a", Key::for_path::<B0>("a")), ("9_.X", Key::for_path::<B0>("9_.X")), ("é", Key::for_path::<u32>("é")), (" bZb☃bé1.0", Key::for_path::<u16>(" bZb☃bé1.0")), ("Ye g_é_Ze", Key::for_path::<E1>("Ye g_é_Ze")), ("daXd10cd/☃9c_☃fggYgéagY-☃fécef9_gb.90c-X-é☃.ae1c09_dé0YéfXY-bcd_g☃dé☃Z9éZ_☃-eebcb_9X-Z/Yaa-g1gfYc/9fg0c1d._☃ .a99gad.e-Zcéa☃c.c990", Key::for_path::<bool>("daXd10cd/☃9c_☃fggYgéagY-☃fécef9_gb.90c-X-é☃.ae1c09_dé0YéfXY-bcd_g☃dé☃Z9éZ_☃-eebcb_9X-Z/Yaa-g1gfYc/9fg0c1d._☃ .a99gad.e-Zcéa☃c.c990")), ("-égaZ9Z☃b/0c_é☃☃Z a1 f ..-Yé1e☃_X_Xé0Yge", Key::for_path::<B1>("-égaZ9Z☃b/0c_é☃☃Z a1 f ..-Yé1e☃_X_Xé0Yge")), ("-fdgaeeb_gg", Key::for_path::<(u8, A2)>("-fdgaeeb_gg")), ("a_", Key::for_path::<B0>("a_")), ("ce", Key::for_path::<A6>("ce")), ("éb.", Key::for_path::<B1>("éb.")), ("1é  .__1bgX9", Key::for_path::<A6>("1é  .__1bgX9")), ("f/", Key::for_path::<B1>("f/")), ("Yc//_ca☃cg  cYd-9Zb /0e01f1/ccYc/_b._. 1", Key::for_path::<A1>("Yc//_ca☃cg  cYd-9Zb /0e01f1/ccYc/_b._. 1")), ("Z0ggg☃", Key::for_path::<String>("Z0ggg☃")), ("eac0g-g9", Key::for_path::<E1>("eac0g-g9")), ("d", Key::for_path::<A3>("d")), ("é0Xf", Key::for_path::<u64>("é0Xf")), (".eéZg1éZ☃ef-Y_g☃_   ☃aZfbbdfZ 90a .Yf9Yb_aX_. ZX  d-._☃d/1c0d☃fX.. -YZa.fgYb0/é☃/aZ Yd-fX./é109g9.☃dZ_/gé1éc☃ZZffY.b☃fcYYY1gY/é00d", Key::for_path::<u32>(".eéZg1éZ☃ef-Y_g☃_   ☃aZfbbdfZ 90a .Yf9Yb_aX_. ZX  d-._☃d/1c0d☃fX.. -YZa.fgYb0/é☃/aZ Yd-fX./é109g9.☃dZ_/gé1éc☃ZZffY.b☃fcYYY1gY/é00d")), ("Z☃-Z/", Key::for_path::<u64>("Z☃-Z/")), ("édfX19-é", Key::for_path::<A4>("édfX19-é")), ("g 1fZde", Key::for_path::<E0>("g 1fZde")), ("/-/é1☃g YbgX", Key::for_path::<E0>("/-/é1☃g YbgX")), ("d1bZXb-9_f", Key::for_path::<[A1; 2]>("d1bZXb-9_f")), ("-.0☃b-Y Z.ef_Xc9a", Key::for_path::<B1>("-.0☃b-Y Z.ef_Xc9a")), ("d9Y -/9éad1g 0XZd", Key::for_path::<char>("d9Y -/9éad1g 0XZd")), ("ée/.c1dé /1c", Key::for_path::<A5>("ée/.c1dé /1c")), ("e_", Key::for_path::<[u8; 4]>("e_")), ("Z//_", Key::for_path::<(A3, E0, u16)>("Z//_")), ("c09Z9", Key::for_path::<N1>("c09Z9")), ("/g-b1", Key::for_path::<B0>("/g-b1")), ("9_bYc-☃a☃Y☃Zcff00eYabb_é9  g0/Yafgac_YXc", Key::for_path::<(A3, E0, u16)>("9_bYc-☃a☃Y☃Zcff00eYabb_é9  g0/Yafgac_YXc")), ("gaa", Key::for_path::<A5>("gaa")), ("ba/9cdéeeéZa.a☃gXaba 0 éca19e9☃Z☃☃ dgeZ0.9aegYZbZXe_/ d_ eg.0b9agf_a☃é  /ga  e--f☃d__☃1./_d1g0dZé1 f.dbd1a1☃a  é1cf-☃☃bfd-/☃éégacd", Key::for_path::<(A3, E0, u16)>("ba/9cdéeeéZa.a☃gXaba 0 éca19e9☃Z☃☃ dgeZ0.9aegYZbZXe_/ d_ eg.0b9agf_a☃é  /ga  e--f☃d__☃1./_d1g0dZé1 f.dbd1a1☃a  é1cf-☃☃bfd-/☃éégacd")), ("1 /Yg1b9c --", Key::for_path::<[A1; 2]>("1 /Yg1b9c --")), ("ecbY-d☃cé☃", Key::for_path::<()>("ecbY-d☃cé☃")), ("_☃1", Key::for_path::<B0>("_☃1")), ("/1bgfcZ//-1f9b9e9", Key::for_path::<B0>("/1bgfcZ//-1f9b9e9")), ("_0XZeX", Key::for_path::<i8>("_0XZeX")), ("eX/.X☃df", Key::for_path::<U0>("eX/.X☃df")), ("☃X1 Y", Key::for_path::<u8>("☃X1 Y")), ("/0g/", Key::for_path::<E1>("/0g/")), ("0d9féea.ccéf", Key::for_path::<T0>("0d9féea.ccéf")), ("_11.☃aY9X", Key::for_path::<(u8, A2)>("_11.☃aY9X")), ("0a fgaZ.", Key::for_path::<N1>("0a fgaZ.")), ("beé.☃d_9b", Key::for_path::<A6>("beé.☃d_9b")), ("g/bc1/Z ", Key::for_path::<u8>("g/bc1/Z ")), ("0_9dbZZéYY/-", Key::for_path::<B0>("0_9dbZZéYY/-")), ("cé- _eZ0X1", Key::for_path::<(u8, A2)>("cé- _eZ0X1")), ("9ééfbY", Key::for_path::<A8>("9ééfbY"))], &[<i64 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <u16 as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <u16 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <char as Schema>::SCHEMA, <() as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <u16 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <char as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <() as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <A8 as Schema>::SCHEMA]);
    }
}
mod e37 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoints! {
        list = LIST;
        | EndpointTy | RequestTy | ResponseTy | Path | 
        | --- | --- | --- | --- | 
        | Ep0 | A4 | u64 | " a-9c" | 
        | Ep1 | A0 | N0 | ".--" | 
        | Ep2 | [A1; 2] | u32 | "/9.-fZ_/a__a._☃b1gcebYXY1éXbf☃Yb9eccdc_a" | 
        | Ep3 | () | A1 | "YYeé c" | 
        | Ep4 | B0<'a> | B0<'b> | "/1Z YY" | 
        | Ep5 | E1 | A1 | ".-é-/X91fe" | 
        | Ep6 | B0<'a> | String | "Z_Yfbb0df. .cXc/ -g.d.add_☃ 1cé0Y-_-/☃eY0Zcda//ecXa.0./Y1cdc_Yd☃b1eée0Z91 é/b -bd/☃-- _9/bfe.XZéZéYdceb9agZe.céc-☃g-/ga90c_dX0.☃  " | 
        | Ep7 | String | B0<'b> | "ad0 féaaY" | 
        | Ep8 | A7 | (u8, A2) | "9 Y" | 
        | Ep9 | B1<'a> | B0<'b> | "9" | 
        | Ep10 | A8 | A8 | " Yg1Z90" | 
        | Ep11 | A6 | i8 | "Zc" | 
        | Ep12 | u8 | B0<'b> | "a/g" | 
        | Ep13 | B0<'a> | [u8; 4] | "Zcba." | 
        | Ep14 | A8 | u8 | ".a" | 
        | Ep15 | N1 | u32 | " -_ZfZcfe" | 
        | Ep16 | N1 | u8 | "dX1Z" | 
        | Ep17 | N1 | A5 | "" | 
        | Ep18 | String | B0<'b> | "_Zc_a1bgdéYX-édb 09 .c0dYX/Ya_fcég_débé " | 
        | Ep19 | [[u8; 2]; 3] | E1 | "Z-" | 
        | Ep20 | A7 | String | "dc" | 
        | Ep21 | T0 | u8 | "-- " | 
        | Ep22 | i8 | T0 | "cZ. é" | 
        | Ep23 | E1 | A1 | " ag. gafX9egd1dafé.g.0-Z9fcgeeb1/aX 1/X☃9-_ag0abbZ_baY/d1cg gg_f☃_Z0g_-d-Yb01-/ddfcdZZ9 /Yd91..9XXgdg0e1ebYfdY9egbgY☃aYZZ.9.11-900" | 
        | Ep24 | char | B1<'b> | "Z f.Y-.9. _Y/ éd☃☃bbXYc0ZYc-c1/aZ-☃1e/-é" | 
        | Ep25 | B1<'a> | A8 | "é9Y-b ca.19YécZcdaéf/d Zaef9/0d9f-aYf-/-ga__Z0dcbegY-Z9ecZ_1f☃-fYf☃bYg- -a-.X0 .b0☃-91Y_gZ_aZ1ea☃-g-YY-Z fe☃/9éZ Xab/dggZ ebéZ.0☃a" | 
        | Ep26 | A8 | T0 | "dd" | 
        | Ep27 | N0 | u64 | "bZf" | 
        | Ep28 | B0<'a> | B0<'b> | "fd/e X " | 
        | Ep29 | N0 | [A1; 2] | "Xg1__9__Z0g " | 
        | Ep30 | B0<'a> | A3 | "éZ-0Y e.eXYéZ-Za Y/d☃010Ze/Y9aé/_Yé0YY☃0" | 
        | Ep31 | U0 | char | "ddféd" | 
        | Ep32 | (A3, E0, u16) | (A3, E0, u16) | "ab" | 
        | Ep33 | A8 | N0 | "g YZé/.1" | 
        | Ep34 | String | (A3, E0, u16) | "0c9_cY caXb" | 
        | Ep35 | f32 | A6 | "fZ_b9f" | 
        | Ep36 | A3 | E0 | "_.d" | 
        | Ep37 | N1 | N0 | "c☃ff" | 
        | Ep38 | A4 | u32 | "☃☃bgcd" | 
        | Ep39 | N1 | (A3, E0, u16) | "ZXX" | 
        | Ep40 | u32 | u64 | "1d" | 
        | Ep41 | f32 | A5 | "/☃caf_Xde" | 
        | Ep42 | N1 | B1<'b> | "X-.-gZéé0d-b.Xbb_/dX_Xé__-Z.1Xéc1109.9ac" | 
        | Ep43 | T0 | () | "c9b" | 
        | Ep44 | N0 | [u8; 4] | "g☃" | 
        | Ep45 | A5 | E0 | "eéed19a/égd/daX-.YXéX- fabcfd.0a9/f☃eeg0" | 
        | Ep46 | String | A3 | " X/9e/dbY9é☃XXaéY" | 
        | Ep47 | [[u8; 2]; 3] | A3 | "Y-g" | 
        | Ep48 | u64 | N1 | "Y/11._//0Yf aZbe " | 
        | Ep49 | () | B1<'b> | "-g.Y0☃gXad" | 
        | Ep50 | N1 | u64 | "X." | 
        | Ep51 | A2 | N0 | "g☃ 9Y e" | 
        | Ep52 | u32 | N1 | "ZY ZY990/" | 
        | Ep53 | B1<'a> | bool | ".Yé10a1Zae.0fdbYZ1d0a☃b91é.fcé e_/faXc _Yf-0c☃19Xf/Z09d/.cc9éce_ca☃é 1X90 ☃_1f/0e Y91 00ébY.Zg9eY9X☃cYefe YeaY9-☃_0d/g/fafcXY __19" | 
        | Ep54 | A8 | A4 | "/fZd0X☃eeéX/Xg1ad0☃9gZ0caabdggXZ99/0dcg☃" | 
        | Ep55 | B0<'a> | [[u8; 2]; 3] | "900X-/0.dé00f dZ9. /0fY.-.gfc-9cd_0aa-Xg9facc☃b-/e/Ya.0_é9/c0bc /cde.9 b0 __d g/0e---e01.☃9010-cd☃ebd0fa☃.- _-Y1-dé/11Y1g1YZXYa1ec" | 
        | Ep56 | B1<'a> | E1 | "bYeY1f" | 
        | Ep57 | A8 | A2 | "1ecbYa-☃/" | 
        | Ep58 | T0 | A1 | "é/gXf" | 
        | Ep59 | A3 | B1<'b> | "fé0éa1e1XXe_" | 
        | Ep60 | U0 | (u8, A2) | "eébY 9" | 
        | Ep61 | B1<'a> | [u8; 4] | "f. cX.fZZdga/c9☃☃" | 
        | Ep62 | A6 | u32 | "." | 
        | Ep63 | B1<'a> | A0 | "01f" | 
        | Ep64 | String | B0<'b> | "9fgegeécdbf☃céc/0fa- .é0 ☃/-b1Y_☃11a._aX91b_X-.c991.Z☃_éfeé-aYeéééé91e_afZdY9 -eXX-X-Y.a☃Xg-éc0 be.cggg/f/1_/01cgé_Zdg☃g.1eaé.-da-" | 
        | Ep65 | N1 | E0 | "Y11☃ddeZaYbf☃/a☃é" | 
        | Ep66 | i64 | bool | "/.aXX9ca" | 
        | Ep67 | [A1; 2] | E0 | "9bYég/.g" | 
        | Ep68 | N0 | N1 | "-c.Zba X9é9éaffZ☃YbbYZgegfec0a-☃☃☃ce1bd1" | 
        | Ep69 | () | bool | "/.e_eefde" | 
        | Ep70 | B0<'a> | i8 | "éY-gZcg0" | 
        | Ep71 | bool | B1<'b> | "Y._/" | 
        | Ep72 | N1 | (A3, E0, u16) | "0ed" | 
        | Ep73 | A2 | B0<'b> | "_c0" | 
        | Ep74 | u64 | (u8, A2) | "Ye" | 
        | Ep75 | A0 | [[u8; 2]; 3] | "é-/éY_Z☃-_éd" | 
        | Ep76 | [u8; 4] | A8 | " " | 
        | Ep77 | u8 | A7 | "cYcXZéf." | 
        | Ep78 | T0 | U0 | "g" | 
        | Ep79 | A5 | B0<'b> | "de-9aX0/" | 
        | Ep80 | A5 | u32 | "-dY" | 
        | Ep81 | B0<'a> | [u8; 4] | "-/d" | 
        | Ep82 | B0<'a> | i8 | "dX." | 
        | Ep83 | [u8; 4] | [A1; 2] | "/aéad.Z." | 
        | Ep84 | N0 | [u8; 4] | "bfZg_égY" | 
        | Ep85 | E1 | B0<'b> | "X_1X00é-Yéf_b_YX/1df9//Z-1_0☃ée0c/f1f☃Xg9- dXg_X/-egYdZ.X☃0.0cé0/X d9fbgga-/.Y-Zb0☃YZeZXZ   1d19f☃-ecY_ééé-1☃YcXY_10.-_0Y0c0aa/- d" | 
        | Ep86 | u8 | String | "gcgX" | 
        | Ep87 | B0<'a> | u16 | "aX /X1/" | 
        | Ep88 | A2 | [u8; 4] | "-.X1d" | 
        | Ep89 | E0 | [u8; 4] | "99XZf-bZ9" | 
        | Ep90 | B0<'a> | i8 | "Yg9_e" | 
        | Ep91 | A0 | [u8; 4] | "_.g9-" | 
        | Ep92 | u64 | A8 | "é" | 
        | Ep93 | U0 | A6 | "Yc☃gé1gZ..Y" | 
        | Ep94 | B0<'a> | A2 | " 9-f/1Yé/" | 
        | Ep95 | [u8; 4] | [u8; 4] | "aaX0 0 ab" | 
        | Ep96 | A3 | () | "/9eY1" | 
        | Ep97 | i64 | U0 | "_ébg" | 
        | Ep98 | B0<'a> | (A3, E0, u16) | "ZYeY-f___bgY" | 
        | Ep99 | bool | A5 | "☃g/..☃a- f0" | 
        | Ep100 | (u8, A2) | i8 | "Y☃gg0" | 
        | Ep101 | B0<'a> | A7 | "/" | 
        | Ep102 | (u8, A2) | E0 | "gc-" | 
        | Ep103 | T0 | A3 | "Xa -Yfe_☃.XdaédY9" | 
        | Ep104 | () | T0 | "- ☃eZgYg/ZZé-0aeg" | 
        | Ep105 | A3 | bool | "_☃Xc☃" | 
        | Ep106 | A4 | U0 | ". ☃ -fe0Xcgd10fc-" | 
        | Ep107 | f32 | u32 | "1_ce9" | 
        | Ep108 | U0 | f32 | "11Z9" | 
        | Ep109 | u64 | A4 | "f" | 
        | Ep110 | A4 | (u8, A2) | "X9aadZ_" | 
        | Ep111 | A3 | E1 | "_é" | 
        | Ep112 | [u8; 4] | E0 | "-dZgf-/Zaé." | 
        | Ep113 | i8 | f32 | "_d e_ X-☃/" | 
        | Ep114 | bool | u8 | "b/Yd" | 
        | Ep115 | B0<'a> | U0 | "gdee-g" | 
        | Ep116 | A0 | N1 | "Zf.1/" | 
        | Ep117 | A0 | B0<'b> | "b0☃f1☃" | 
        | Ep118 | E1 | i64 | "1.190_0Y-0" | 
        | Ep119 | B1<'a> | String | "dZ.é." | 
        | Ep120 | B1<'a> | u16 | ".☃f.ca☃1." | 
        | Ep121 | A3 | (u8, A2) | "0Z-cf d .b1☃Z.☃é1/-bdfX 91dZc c.9-.☃Y9aZd☃.éeXb_e..Xgc0Z.109-☃ZXdb_Z eaca/.Y_-gébZdX0geZ_/-e0☃X00.0dXd 1Z1dd0fg_fXdeé☃dd-aZgeYbcéb" | 
        | Ep122 | [u8; 4] | A2 | "d_.b-/" | 
        | Ep123 | String | (A3, E0, u16) | "_f" | 
        | Ep124 | B1<'a> | A8 | "1g-.a1Zé-dc" | 
        | Ep125 | B0<'a> | E0 | "-fdbZ" | 
        | Ep126 | [A1; 2] | A0 | "ZfXgc." | 
        | Ep127 | B0<'a> | B0<'b> | "/c/_cZg1" | 
        | Ep128 | A7 | A5 | "☃c1dab/aXaZcfY1éc9ae☃da☃9.d☃b9bYdYg_9XcedZaXg--caddce0gc9b eé0-/_Xé9Y._gZXXX Xde☃/9-01 -éef.9-éY_gc -e.YXY b .1//c 1Y_eZ9 fce..g_Y" | 
        | Ep129 | B0<'a> | B1<'b> | " -9☃cegbd._" | 
        | Ep130 | A4 | u16 | "c " | 
        | Ep131 | A4 | B0<'b> | "☃ X" | 
        | Ep132 | A1 | char | "ZééZgcc1 1/" | 
        | Ep133 | A4 | B1<'b> | "bZ99g" | 
        | Ep134 | A1 | u8 | "__d" | 
        | Ep135 | u16 | i64 | "b./" | 
        | Ep136 | E1 | [A1; 2] | "fg1" | 
        | Ep137 | A0 | B0<'b> | "b/☃9éYb..fébab/-a" | 
        | Ep138 | [u8; 4] | A0 | "fb1-.YZ-1-" | 
        | Ep139 | (u8, A2) | [u8; 4] | "/Ze0-" | 
        | Ep140 | B1<'a> | A5 | "_fbe9ae1.-01 YcfZbc0Ydé1/ -e-éZbce.YaXd0.0dXbXgX☃e9☃f0éZ☃11_Z☃d-_ f0X0☃YYYé- ggf119e☃béY_ a édé☃bcgX_e1d_0_/X.-b.b/gg_Zffba0/90_0d" | 
        | Ep141 | A5 | A6 | ".d-eX0ccg_ZZg0eZad/eg0X f/90 ☃1éYX☃.e/da" | 
        | Ep142 | N0 | A4 | "☃/f" | 
        | Ep143 | B1<'a> | f32 | "f_☃c9" | 
        | Ep144 | A0 | E0 | "a 1" | 
        | Ep145 | [[u8; 2]; 3] | A0 | ".9" | 
        | Ep146 | B0<'a> | A8 | "0X-" | 
        | Ep147 | [A1; 2] | f32 | "a_Z" | 
        | Ep148 | A5 | [[u8; 2]; 3] | "Ya.cfZ_0X " | 
        | Ep149 | A4 | [u8; 4] | ". /d/" | 
        | Ep150 | char | A7 | "ZX☃Z1" | 
        | Ep151 | A6 | T0 | "a☃10de-X-df" | 
        | Ep152 | N0 | f32 | "X9gZ_ bcd0fa dddb☃-_de☃/Ya9-9 Yag9Z b9-☃Za☃bf0gb--Z9XZg.0 _.//é__ég_ .aZé-ca_aa/-feg-bcéZbaX☃_1 1gfé-9.0fX/fX9 Z.0c_bYc0.-d10eZg☃-" | 
        | Ep153 | A1 | B1<'b> | "_c☃é" | 
        | Ep154 | [[u8; 2]; 3] | u32 | "Z" | 
        | Ep155 | N0 | N1 | "_ Z☃é/Z1é" | 
        | Ep156 | B1<'a> | A5 | "d-1egZb 9c" | 
        | Ep157 | T0 | [[u8; 2]; 3] | "Zagbc-ébc//daég0é.9bYa Y ddX bc_cef1X/cbgc☃ 9.dé-.  .1ce-ebgcgfé90é.a_éca ea-1☃9e_ c1☃g☃é- eé9/g_d.Yggé☃Xaé9 _ef9 eZfXeYaYe9c99_ e" | 
        | Ep158 | [A1; 2] | i64 | "gY_e☃" | 
        | Ep159 | (A3, E0, u16) | bool | "Y009e1f9☃" | 
        | Ep160 | B0<'a> | B1<'b> | "_ccbdd1XgZ b/Yb1." | 
        | Ep161 | [A1; 2] | B0<'b> | "aYc 9a9a☃☃ef" | 
        | Ep162 | A1 | A5 | "bécg1X/-g" | 
        | Ep163 | u16 | N1 | "e9-0 " | 
        | Ep164 | A7 | A2 | "gZZgYZ.f0" | 
        | Ep165 | E0 | (u8, A2) | "é1_cf" | 
        | Ep166 | A2 | B0<'b> | "ed1" | 
        | Ep167 | u64 | E1 | "fX  0e" | 
        | Ep168 | () | u64 | "dX0ed" | 
        | Ep169 | u32 | B1<'b> | "cg" | 
        | Ep170 | A2 | (u8, A2) | "Xdgc.ZYZ." | 
        | Ep171 | (u8, A2) | A0 | "X☃XY☃c bfc9bZ0ZZ-0☃1-0eb1c-Z --9_.☃_-ecYa.dg ga1eYfffe c0efffé aeYbbgc0 g1gX☃-Ye-ZY_/0dddYagbce.cZ.c/Yb.._/9gY/g/0☃X_99-é0Ybfdddég" | 
        | Ep172 | A2 | T0 | "0dg_Zg_cb -XdY Zf" | 
        | Ep173 | [A1; 2] | bool | "9dfZ " | 
        | Ep174 | char | bool | "fZdaéYé-Zea1" | 
        | Ep175 | (A3, E0, u16) | T0 | "be9eédY1" | 
        | Ep176 | B0<'a> | B0<'b> | "Z-_bY" | 
        | Ep177 | () | E0 | "d☃ e/X☃" | 
        | Ep178 | B0<'a> | (u8, A2) | "0☃d1a" | 
        | Ep179 | [u8; 4] | u32 | "/.☃e-afa_-dd" | 
        | Ep180 | u64 | B0<'b> | "0 09aa9Zc9a9é0g-XYdX d-bg__ae1c/eb..X.aeXXcfaé-☃☃é.YZ.//Z_b  fc☃Xf_-/☃bfYfX9_0écc-fYaéXY_d0gXfed_feg ZZ.dZc bYéX.0é9e-f-Z/é.Y0ZZg☃" | 
        | Ep181 | (A3, E0, u16) | u64 | "gb _d99" | 
        | Ep182 | [u8; 4] | N1 | "._" | 
        | Ep183 | A1 | B1<'b> | "1YY0agZdgc0./ addgaé-☃c_0b_Ze☃0eb1☃b 0/Z" | 
        | Ep184 | [[u8; 2]; 3] | String | "-1é" | 
        | Ep185 | [[u8; 2]; 3] | E1 | "--dgXf " | 
        | Ep186 | i8 | U0 | "X/ég ZéaX-Z" | 
        | Ep187 | A7 | N0 | " éea☃Zg19f.0c.c☃g" | 
        | Ep188 | i64 | E0 | "0bd-1édd/" | 
        | Ep189 | [u8; 4] | A7 | "dX.Y0_éaeg" | 
        | Ep190 | B0<'a> | U0 | " e-  dg" | 
        | Ep191 | E0 | [u8; 4] | " cg. eZ1" | 
        | Ep192 | N1 | B0<'b> | "dggca" | 
        | Ep193 | [A1; 2] | A4 | "bbb9X" | 
        | Ep194 | A2 | B0<'b> | "9fa0YcZ" | 
        | Ep195 | E1 | (A3, E0, u16) | "_c" | 
        | Ep196 | A4 | [u8; 4] | "☃☃0Yg☃déea" | 
        | Ep197 | B1<'a> | A2 | "01Xée" | 
        | Ep198 | T0 | bool | "._☃fé_géb_e" | 
        | Ep199 | String | B0<'b> | "éaf" | 
        | Ep200 | T0 | U0 | "gcd☃aeZe0" | 
        | Ep201 | A4 | B1<'b> | "00f1-0bYa.Y1X99gb9de.9 e a//Zé☃9_☃-g-é1éc☃9_d/. 1f0g0ééea-Yc-☃09déY009éd_0-e-1☃X-c- fZé☃ccé é0g- Z1☃☃eYb90_f00 e9é9Y☃/.f90dd   _0c" | 
        | Ep202 | E1 | i64 | "/da9.fcZY" | 
        | Ep203 | B1<'a> | u16 | "10" | 
        | Ep204 | u8 | (u8, A2) | "//a.☃0☃ad.c1.XX0_" | 
        | Ep205 | A4 | A4 | "aXgYZg1f91Xd.g--XX_/aeZc/-YYeg☃bZ.Z gf0f 0c.e☃1c.ebgc/9dfd/b.ZcZgfZ0.1X/0Yéf1fgfé_g__éaegb.bZZ1Y9ge1ééc d./é1c.01fag-. dZX☃aga fY0" | 
        | Ep206 | A7 | A5 | "éd0bYYb1.b" | 
        | Ep207 | U0 | [[u8; 2]; 3] | "_Y__fYdb" | 
        | Ep208 | T0 | A2 | "Z1_gd " | 
        | Ep209 | u64 | (A3, E0, u16) | "Zag" | 
        | Ep210 | B1<'a> | A6 | "Zfb " | 
        | Ep211 | [A1; 2] | A7 | "☃☃ " | 
        | Ep212 | T0 | A2 | "009e☃fe/0" | 
        | Ep213 | B0<'a> | u8 | "dZc/.dé_b" | 
        | Ep214 | B1<'a> | char | "1☃/c_0b/" | 
        | Ep215 | N0 | [u8; 4] | "9a0Z☃☃-ab-" | 
        | Ep216 | A2 | () | "éc0" | 
        | Ep217 | (u8, A2) | A1 | "☃191" | 
        | Ep218 | B0<'a> | [A1; 2] | "9d9g0/1X☃ec/.écccb_gaeX éd_eé9éaféé☃gYgg" | 
        | Ep219 | (u8, A2) | A1 | " fg1Yfe./b//" | 
        | Ep220 | A7 | (u8, A2) | "g--" | 
        | Ep221 | A4 | char | "ZYb é0Y.bf" | 
        | Ep222 | bool | f32 | "0bY /ad9." | 
        | Ep223 | A5 | A1 | "-aY-a._YfgaY0_X☃☃1bdagY9Z c_XdY0f.d9afaX" | 
        | Ep224 | bool | E1 | "0gég..d " | 
        | Ep225 | u8 | [u8; 4] | "b0ec9☃Xé_ff-☃bcXcZ Y./fY.0c_01e1gb a1_fé" | 
        | Ep226 | A7 | A5 | "☃ZZ" | 
        | Ep227 | u32 | N0 | "1d-da ga9" | 
        | Ep228 | B1<'a> | N0 | "X/e" | 
        | Ep229 | [A1; 2] | B0<'b> | "0Z-g-a9 _a g_éaZab/f_f1_é☃X ☃--9e9e0/Y_0" | 
        | Ep230 | B1<'a> | () | "g1_9baéZ1-_ ☃0ed.ZgYg☃.dccXdX_☃f0. _gd☃90c_1e-. g1 e.9☃ 91 c gZ be9 éd_XYdaeéX0Z_fe1_ eeg.éeéfb-d-..Z_.YXd-b9X/bcac1ZY9Yeba_X☃gafY" | 
        | Ep231 | B0<'a> | A4 | " 1eX0b☃1cgd" | 
        | Ep232 | B0<'a> | A3 | " /aZ☃ " | 
        | Ep233 | A7 | A1 | "_9Xgbe" | 
        | Ep234 | [A1; 2] | A5 | "g ☃cf9g0_d1" | 
        | Ep235 | [u8; 4] | A5 | " Za X9☃/XcX0" | 
        | Ep236 | E1 | U0 | "c-b" | 
        | Ep237 | u32 | A6 | "f_a_XXdfé" | 
        | Ep238 | B1<'a> | A7 | ".YgX/é" | 
        | Ep239 | (u8, A2) | bool | "9e1X " | 
        | Ep240 | U0 | [A1; 2] | "gf" | 
        | Ep241 | A6 | u32 | "eg/aé" | 
        | Ep242 | E0 | B0<'b> | "dée ☃a/" | 
        | Ep243 | B1<'a> | B1<'b> | "é☃/.a0XZ fX" | 
        | Ep244 | (A3, E0, u16) | (A3, E0, u16) | "_Y YYéaZg" | 
        | Ep245 | A4 | A5 | "YXdb" | 
        | Ep246 | N1 | [u8; 4] | "/_d1c-dX_/" | 
        | Ep247 | A6 | u64 | "d-1/-_XcZgXX" | 
        | Ep248 | A1 | E1 | "-eZZX" | 
        | Ep249 | A5 | i64 | "0_éggg-YY " | 
        | Ep250 | A7 | N1 | "d .11éXb" | 
        | Ep251 | char | u32 | "XcZg." | 
        | Ep252 | A5 | N0 | "1☃cX1☃-Ze./e/.fX/0_X☃..ag-.dbcZdcbY09Y19" | 
        | Ep253 | A6 | u64 | "e YX010Za- 9 eab-" | 
        | Ep254 | B0<'a> | u8 | "9b☃_edY9dYéZ.e -.0  Y0a0 09b☃☃b_ Xg d/ce" | 
        | Ep255 | () | T0 | "/9gb9ég/ a.éZ☃1a1dé.Yca1.-d0fé/g/gé9Z1 0" | 
        | Ep256 | f32 | T0 | "Za/☃.☃☃.-" | 
        | Ep257 | A1 | A6 | "X9ec0" | 
        | Ep258 | A5 | U0 | "-bc☃c" | 
        | Ep259 | N1 | A8 | "1ZXfX/Y0☃/ca 9e--é.dgX91gd/dbYé0_dZb☃g/e" | 
        | Ep260 | E0 | A0 | "b/" | 
        | Ep261 | (A3, E0, u16) | String | "bgag☃/.éX" | 
        | Ep262 | B1<'a> | E0 | "☃e.gb0ag" | 
        | Ep263 | i8 | [u8; 4] | "9Y☃g1b" | 
        | Ep264 | [[u8; 2]; 3] | (u8, A2) | "a" | 
        | Ep265 | U0 | f32 | "9☃/X☃" | 
        | Ep266 | N0 | A0 | "☃aX1/-.0gZ" | 
        | Ep267 | A1 | char | "1g  01b ." | 
        | Ep268 | (u8, A2) | A1 | "☃fX☃é/Xg ☃.XY0/Y a-ff0YZ0f1dZd1fXZbZb.-1" | 
        | Ep269 | A2 | B0<'b> | "df0 Zef01a" | 
    }
    pub fn check(c: &mut Ctx) {
        ep::<Ep0, A4, u64>(c, "Ep0", " a-9c");
        ep::<Ep1, A0, N0>(c, "Ep1", ".--");
        ep::<Ep2, [A1; 2], u32>(c, "Ep2", "/9.-fZ_/a__a._☃b1gcebYXY1éXbf☃Yb9eccdc_a");
        ep::<Ep3, (), A1>(c, "Ep3", "YYeé c");
        ep::<Ep4, B0, B0>(c, "Ep4", "/1Z YY");
        ep::<Ep5, E1, A1>(c, "Ep5", ".-é-/X91fe");
        ep::<Ep6, B0, String>(c, "Ep6", "Z_Yfbb0df. .cXc/ -g.d.add_☃ 1cé0Y-_-/☃eY0Zcda//ecXa.0./Y1cdc_Yd☃b1eée0Z91 é/b -bd/☃-- _9/bfe.XZéZéYdceb9agZe.céc-☃g-/ga90c_dX0.☃  ");
        ep::<Ep7, String, B0>(c, "Ep7", "ad0 féaaY");
        ep::<Ep8, A7, (u8, A2)>(c, "Ep8", "9 Y");
        ep::<Ep9, B1, B0>(c, "Ep9", "9");
        ep::<Ep10, A8, A8>(c, "Ep10", " Yg1Z90");
        ep::<Ep11, A6, i8>(c, "Ep11", "Zc");
        ep::<Ep12, u8, B0>(c, "Ep12", "a/g");
        ep::<Ep13, B0, [u8; 4]>(c, "Ep13", "Zcba.");
        ep::<Ep14, A8, u8>(c, "Ep14", ".a");
        ep::<Ep15, N1, u32>(c, "Ep15", " -_ZfZcfe");
        ep::<Ep16, N1, u8>(c, "Ep16", "dX1Z");
        ep::<Ep17, N1, A5>(c, "Ep17", "");
        ep::<Ep18, String, B0>(c, "Ep18", "_Zc_a1bgdéYX-édb 09 .c0dYX/Ya_fcég_débé ");
        ep::<Ep19, [[u8; 2]; 3], E1>(c, "Ep19", "Z-");
        ep::<Ep20, A7, String>(c, "Ep20", "dc");
        ep::<Ep21, T0, u8>(c, "Ep21", "-- ");
        ep::<Ep22, i8, T0>(c, "Ep22", "cZ. é");
        ep::<Ep23, E1, A1>(c, "Ep23", " ag. gafX9egd1dafé.g.0-Z9fcgeeb1/aX 1/X☃9-_ag0abbZ_baY/d1cg gg_f☃_Z0g_-d-Yb01-/ddfcdZZ9 /Yd91..9XXgdg0e1ebYfdY9egbgY☃aYZZ.9.11-900");
        ep::<Ep24, char, B1>(c, "Ep24", "Z f.Y-.9. _Y/ éd☃☃bbXYc0ZYc-c1/aZ-☃1e/-é");
        ep::<Ep25, B1, A8>(c, "Ep25", "é9Y-b ca.19YécZcdaéf/d Zaef9/0d9f-aYf-/-ga__Z0dcbegY-Z9ecZ_1f☃-fYf☃bYg- -a-.X0 .b0☃-91Y_gZ_aZ1ea☃-g-YY-Z fe☃/9éZ Xab/dggZ ebéZ.0☃a");
        ep::<Ep26, A8, T0>(c, "Ep26", "dd");
        ep::<Ep27, N0, u64>(c, "Ep27", "bZf");
        ep::<Ep28, B0, B0>(c, "Ep28", "fd/e X ");
        ep::<Ep29, N0, [A1; 2]>(c, "Ep29", "Xg1__9__Z0g ");
        ep::<Ep30, B0, A3>(c, "Ep30", "éZ-0Y e.eXYéZ-Za Y/d☃010Ze/Y9aé/_Yé0YY☃0");
        ep::<Ep31, U0, char>(c, "Ep31", "ddféd");
        ep::<Ep32, (A3, E0, u16), (A3, E0, u16)>(c, "Ep32", "ab");
        ep::<Ep33, A8, N0>(c, "Ep33", "g YZé/.1");
        ep::<Ep34, String, (A3, E0, u16)>(c, "Ep34", "0c9_cY caXb");
        ep::<Ep35, f32, A6>(c, "Ep35", "fZ_b9f");
        ep::<Ep36, A3, E0>(c, "Ep36", "_.d");
        ep::<Ep37, N1, N0>(c, "Ep37", "c☃ff");
        ep::<Ep38, A4, u32>(c, "Ep38", "☃☃bgcd");
        ep::<Ep39, N1, (A3, E0, u16)>(c, "Ep39", "ZXX");
        ep::<Ep40, u32, u64>(c, "Ep40", "1d");
        ep::<Ep41, f32, A5>(c, "Ep41", "/☃caf_Xde");
        ep::<Ep42, N1, B1>(c, "Ep42", "X-.-gZéé0d-b.Xbb_/dX_Xé__-Z.1Xéc1109.9ac");
        ep::<Ep43, T0, ()>(c, "Ep43", "c9b");
        ep::<Ep44, N0, [u8; 4]>(c, "Ep44", "g☃");
        ep::<Ep45, A5, E0>(c, "Ep45", "eéed19a/égd/daX-.YXéX- fabcfd.0a9/f☃eeg0");
        ep::<Ep46, String, A3>(c, "Ep46", " X/9e/dbY9é☃XXaéY");
        ep::<Ep47, [[u8; 2]; 3], A3>(c, "Ep47", "Y-g");
        ep::<Ep48, u64, N1>(c, "Ep48", "Y/11._//0Yf aZbe ");
        ep::<Ep49, (), B1>(c, "Ep49", "-g.Y0☃gXad");
        ep::<Ep50, N1, u64>(c, "Ep50", "X.");
        ep::<Ep51, A2, N0>(c, "Ep51", "g☃ 9Y e");
        ep::<Ep52, u32, N1>(c, "Ep52", "ZY ZY990/");
        ep::<Ep53, B1, bool>(c, "Ep53", ".Yé10a1Zae.0fdbYZ1d0a☃b91é.fcé e_/faXc _Yf-0c☃19Xf/Z09d/.cc9éce_ca☃é 1X90 ☃_1f/0e Y91 00ébY.Zg9eY9X☃cYefe YeaY9-☃_0d/g/fafcXY __19");
        ep::<Ep54, A8, A4>(c, "Ep54", "/fZd0X☃eeéX/Xg1ad0☃9gZ0caabdggXZ99/0dcg☃");
        ep::<Ep55, B0, [[u8; 2]; 3]>(c, "Ep55", "900X-/0.dé00f dZ9. /0fY.-.gfc-9cd_0aa-Xg9facc☃b-/e/Ya.0_é9/c0bc /cde.9 b0 __d g/0e---e01.☃9010-cd☃ebd0fa☃.- _-Y1-dé/11Y1g1YZXYa1ec");
        ep::<Ep56, B1, E1>(c, "Ep56", "bYeY1f");
        ep::<Ep57, A8, A2>(c, "Ep57", "1ecbYa-☃/");
        ep::<Ep58, T0, A1>(c, "Ep58", "é/gXf");
        ep::<Ep59, A3, B1>(c, "Ep59", "fé0éa1e1XXe_");
        ep::<Ep60, U0, (u8, A2)>(c, "Ep60", "eébY 9");
        ep::<Ep61, B1, [u8; 4]>(c, "Ep61", "f. cX.fZZdga/c9☃☃");
        ep::<Ep62, A6, u32>(c, "Ep62", ".");
        ep::<Ep63, B1, A0>(c, "Ep63", "01f");
        ep::<Ep64, String, B0>(c, "Ep64", "9fgegeécdbf☃céc/0fa- .é0 ☃/-b1Y_☃11a._aX91b_X-.c991.Z☃_éfeé-aYeéééé91e_afZdY9 -eXX-X-Y.a☃Xg-éc0 be.cggg/f/1_/01cgé_Zdg☃g.1eaé.-da-");
        ep::<Ep65, N1, E0>(c, "Ep65", "Y11☃ddeZaYbf☃/a☃é");
        ep::<Ep66, i64, bool>(c, "Ep66", "/.aXX9ca");
        ep::<Ep67, [A1; 2], E0>(c, "Ep67", "9bYég/.g");
        ep::<Ep68, N0, N1>(c, "Ep68", "-c.Zba X9é9éaffZ☃YbbYZgegfec0a-☃☃☃ce1bd1");
        ep::<Ep69, (), bool>(c, "Ep69", "/.e_eefde");
        ep::<Ep70, B0, i8>(c, "Ep70", "éY-gZcg0");
        ep::<Ep71, bool, B1>(c, "Ep71", "Y._/");
        ep::<Ep72, N1, (A3, E0, u16)>(c, "Ep72", "0ed");
        ep::<Ep73, A2, B0>(c, "Ep73", "_c0");
        ep::<Ep74, u64, (u8, A2)>(c, "Ep74", "Ye");
        ep::<Ep75, A0, [[u8; 2]; 3]>(c, "Ep75", "é-/éY_Z☃-_éd");
        ep::<Ep76, [u8; 4], A8>(c, "Ep76", " ");
        ep::<Ep77, u8, A7>(c, "Ep77", "cYcXZéf.");
        ep::<Ep78, T0, U0>(c, "Ep78", "g");
        ep::<Ep79, A5, B0>(c, "Ep79", "de-9aX0/");
        ep::<Ep80, A5, u32>(c, "Ep80", "-dY");
        ep::<Ep81, B0, [u8; 4]>(c, "Ep81", "-/d");
        ep::<Ep82, B0, i8>(c, "Ep82", "dX.");
        ep::<Ep83, [u8; 4], [A1; 2]>(c, "Ep83", "/aéad.Z.");
        ep::<Ep84, N0, [u8; 4]>(c, "Ep84", "bfZg_égY");
        ep::<Ep85, E1, B0>(c, "Ep85", "X_1X00é-Yéf_b_YX/1df9//Z-1_0☃ée0c/f1f☃Xg9- dXg_X/-egYdZ.X☃0.0cé0/X d9fbgga-/.Y-Zb0☃YZeZXZ   1d19f☃-ecY_ééé-1☃YcXY_10.-_0Y0c0aa/- d");
        ep::<Ep86, u8, String>(c, "Ep86", "gcgX");
        ep::<Ep87, B0, u16>(c, "Ep87", "aX /X1/");
        ep::<Ep88, A2, [u8; 4]>(c, "Ep88", "-.X1d");
        ep::<Ep89, E0, [u8; 4]>(c, "Ep89", "99XZf-bZ9");
        ep::<Ep90, B0, i8>(c, "Ep90", "Yg9_e");
        ep::<Ep91, A0, [u8; 4]>(c, "Ep91", "_.g9-");
        ep::<Ep92, u64, A8>(c, "Ep92", "é");
        ep::<Ep93, U0, A6>(c, "Ep93", "Yc☃gé1gZ..Y");
        ep::<Ep94, B0, A2>(c, "Ep94", " 9-f/1Yé/");
        ep::<Ep95, [u8; 4], [u8; 4]>(c, "Ep95", "aaX0 0 ab");
        ep::<Ep96, A3, ()>(c, "Ep96", "/9eY1");
        ep::<Ep97, i64, U0>(c, "Ep97", "_ébg");
        ep::<Ep98, B0, (A3, E0, u16)>(c, "Ep98", "ZYeY-f___bgY");
        ep::<Ep99, bool, A5>(c, "Ep99", "☃g/..☃a- f0");
        ep::<Ep100, (u8, A2), i8>(c, "Ep100", "Y☃gg0");
        ep::<Ep101, B0, A7>(c, "Ep101", "/");
        ep::<Ep102, (u8, A2), E0>(c, "Ep102", "gc-");
        ep::<Ep103, T0, A3>(c, "Ep103", "Xa -Yfe_☃.XdaédY9");
        ep::<Ep104, (), T0>(c, "Ep104", "- ☃eZgYg/ZZé-0aeg");
        ep::<Ep105, A3, bool>(c, "Ep105", "_☃Xc☃");
        ep::<Ep106, A4, U0>(c, "Ep106", ". ☃ -fe0Xcgd10fc-");
        ep::<Ep107, f32, u32>(c, "Ep107", "1_ce9");
        ep::<Ep108, U0, f32>(c, "Ep108", "11Z9");
        ep::<Ep109, u64, A4>(c, "Ep109", "f");
        ep::<Ep110, A4, (u8, A2)>(c, "Ep110", "X9aadZ_");
        ep::<Ep111, A3, E1>(c, "Ep111", "_é");
        ep::<Ep112, [u8; 4], E0>(c, "Ep112", "-dZgf-/Zaé.");
        ep::<Ep113, i8, f32>(c, "Ep113", "_d e_ X-☃/");
        ep::<Ep114, bool, u8>(c, "Ep114", "b/Yd");
        ep::<Ep115, B0, U0>(c, "Ep115", "gdee-g");
        ep::<Ep116, A0, N1>(c, "Ep116", "Zf.1/");
        ep::<Ep117, A0, B0>(c, "Ep117", "b0☃f1☃");
        ep::<Ep118, E1, i64>(c, "Ep118", "1.190_0Y-0");
        ep::<Ep119, B1, String>(c, "Ep119", "dZ.é.");
        ep::<Ep120, B1, u16>(c, "Ep120", ".☃f.ca☃1.");
        ep::<Ep121, A3, (u8, A2)>(c, "Ep121", "0Z-cf d .b1☃Z.☃é1/-bdfX 91dZc c.9-.☃Y9aZd☃.éeXb_e..Xgc0Z.109-☃ZXdb_Z eaca/.Y_-gébZdX0geZ_/-e0☃X00.0dXd 1Z1dd0fg_fXdeé☃dd-aZgeYbcéb");
        ep::<Ep122, [u8; 4], A2>(c, "Ep122", "d_.b-/");
        ep::<Ep123, String, (A3, E0, u16)>(c, "Ep123", "_f");
        ep::<Ep124, B1, A8>(c, "Ep124", "1g-.a1Zé-dc");
        ep::<Ep125, B0, E0>(c, "Ep125", "-fdbZ");
        ep::<Ep126, [A1; 2], A0>(c, "Ep126", "ZfXgc.");
        ep::<Ep127, B0, B0>(c, "Ep127", "/c/_cZg1");
        ep::<Ep128, A7, A5>(c, "Ep128", "☃c1dab/aXaZcfY1éc9ae☃da☃9.d☃b9bYdYg_9XcedZaXg--caddce0gc9b eé0-/_Xé9Y._gZXXX Xde☃/9-01 -éef.9-éY_gc -e.YXY b .1//c 1Y_eZ9 fce..g_Y");
        ep::<Ep129, B0, B1>(c, "Ep129", " -9☃cegbd._");
        ep::<Ep130, A4, u16>(c, "Ep130", "c ");
        ep::<Ep131, A4, B0>(c, "Ep131", "☃ X");
        ep::<Ep132, A1, char>(c, "Ep132", "ZééZgcc1 1/");
        ep::<Ep133, A4, B1>(c, "Ep133", "bZ99g");
        ep::<Ep134, A1, u8>(c, "Ep134", "__d");
        ep::<Ep135, u16, i64>(c, "Ep135", "b./");
        ep::<Ep136, E1, [A1; 2]>(c, "Ep136", "fg1");
        ep::<Ep137, A0, B0>(c, "Ep137", "b/☃9éYb..fébab/-a");
        ep::<Ep138, [u8; 4], A0>(c, "Ep138", "fb1-.YZ-1-");
        ep::<Ep139, (u8, A2), [u8; 4]>(c, "Ep139", "/Ze0-");
        ep::<Ep140, B1, A5>(c, "Ep140", "_fbe9ae1.-01 YcfZbc0Ydé1/ -e-éZbce.YaXd0.0dXbXgX☃e9☃f0éZ☃11_Z☃d-_ f0X0☃YYYé- ggf119e☃béY_ a édé☃bcgX_e1d_0_/X.-b.b/gg_Zffba0/90_0d");
        ep::<Ep141, A5, A6>(c, "Ep141", ".d-eX0ccg_ZZg0eZad/eg0X f/90 ☃1éYX☃.e/da");
        ep::<Ep142, N0, A4>(c, "Ep142", "☃/f");
        ep::<Ep143, B1, f32>(c, "Ep143", "f_☃c9");
        ep::<Ep144, A0, E0>(c, "Ep144", "a 1");
        ep::<Ep145, [[u8; 2]; 3], A0>(c, "Ep145", ".9");
        ep::<Ep146, B0, A8>(c, "Ep146", "0X-");
        ep::<Ep147, [A1; 2], f32>(c, "Ep147", "a_Z");
        ep::<Ep148, A5, [[u8; 2]; 3]>(c, "Ep148", "Ya.cfZ_0X ");
        ep::<Ep149, A4, [u8; 4]>(c, "Ep149", ". /d/");
        ep::<Ep150, char, A7>(c, "Ep150", "ZX☃Z1");
        ep::<Ep151, A6, T0>(c, "Ep151", "a☃10de-X-df");
        ep::<Ep152, N0, f32>(c, "Ep152", "X9gZ_ bcd0fa dddb☃-_de☃/Ya9-9 Yag9Z b9-☃Za☃bf0gb--Z9XZg.0 _.//é__ég_ .aZé-ca_aa/-feg-bcéZbaX☃_1 1gfé-9.0fX/fX9 Z.0c_bYc0.-d10eZg☃-");
        ep::<Ep153, A1, B1>(c, "Ep153", "_c☃é");
        ep::<Ep154, [[u8; 2]; 3], u32>(c, "Ep154", "Z");
        ep::<Ep155, N0, N1>(c, "Ep155", "_ Z☃é/Z1é");
        ep::<Ep156, B1, A5>(c, "Ep156", "d-1egZb 9c");
        ep::<Ep157, T0, [[u8; 2]; 3]>(c, "Ep157", "Zagbc-ébc//daég0é.9bYa Y ddX bc_cef1X/cbgc☃ 9.dé-.  .1ce-ebgcgfé90é.a_éca ea-1☃9e_ c1☃g☃é- eé9/g_d.Yggé☃Xaé9 _ef9 eZfXeYaYe9c99_ e");
        ep::<Ep158, [A1; 2], i64>(c, "Ep158", "gY_e☃");
        ep::<Ep159, (A3, E0, u16), bool>(c, "Ep159", "Y009e1f9☃");
        ep::<Ep160, B0, B1>(c, "Ep160", "_ccbdd1XgZ b/Yb1.");
        ep::<Ep161, [A1; 2], B0>(c, "Ep161", "aYc 9a9a☃☃ef");
        ep::<Ep162, A1, A5>(c, "Ep162", "bécg1X/-g");
        ep::<Ep163, u16, N1>(c, "Ep163", "e9-0 ");
        ep::<Ep164, A7, A2>(c, "Ep164", "gZZgYZ.f0");
        ep::<Ep165, E0, (u8, A2)>(c, "Ep165", "é1_cf");
        ep::<Ep166, A2, B0>(c, "Ep166", "ed1");
        ep::<Ep167, u64, E1>(c, "Ep167", "fX  0e");
        ep::<Ep168, (), u64>(c, "Ep168", "dX0ed");
        ep::<Ep169, u32, B1>(c, "Ep169", "cg");
        ep::<Ep170, A2, (u8, A2)>(c, "Ep170", "Xdgc.ZYZ.");
        ep::<Ep171, (u8, A2), A0>(c, "Ep171", "X☃XY☃c bfc9bZ0ZZ-0☃1-0eb1c-Z --9_.☃_-ecYa.dg ga1eYfffe c0efffé aeYbbgc0 g1gX☃-Ye-ZY_/0dddYagbce.cZ.c/Yb.._/9gY/g/0☃X_99-é0Ybfdddég");
        ep::<Ep172, A2, T0>(c, "Ep172", "0dg_Zg_cb -XdY Zf");
        ep::<Ep173, [A1; 2], bool>(c, "Ep173", "9dfZ ");
        ep::<Ep174, char, bool>(c, "Ep174", "fZdaéYé-Zea1");
        ep::<Ep175, (A3, E0, u16), T0>(c, "Ep175", "be9eédY1");
        ep::<Ep176, B0, B0>(c, "Ep176", "Z-_bY");
        ep::<Ep177, (), E0>(c, "Ep177", "d☃ e/X☃");
        ep::<Ep178, B0, (u8, A2)>(c, "Ep178", "0☃d1a");
        ep::<Ep179, [u8; 4], u32>(c, "Ep179", "/.☃e-afa_-dd");
        ep::<Ep180, u64, B0>(c, "Ep180", "0 09aa9Zc9a9é0g-XYdX d-bg__ae1c/eb..X.aeXXcfaé-☃☃é.YZ.//Z_b  fc☃Xf_-/☃bfYfX9_0écc-fYaéXY_d0gXfed_feg ZZ.dZc bYéX.0é9e-f-Z/é.Y0ZZg☃");
        ep::<Ep181, (A3, E0, u16), u64>(c, "Ep181", "gb _d99");
        ep::<Ep182, [u8; 4], N1>(c, "Ep182", "._");
        ep::<Ep183, A1, B1>(c, "Ep183", "1YY0agZdgc0./ addgaé-☃c_0b_Ze☃0eb1☃b 0/Z");
        ep::<Ep184, [[u8; 2]; 3], String>(c, "Ep184", "-1é");
        ep::<Ep185, [[u8; 2]; 3], E1>(c, "Ep185", "--dgXf ");
        ep::<Ep186, i8, U0>(c, "Ep186", "X/ég ZéaX-Z");
        ep::<Ep187, A7, N0>(c, "Ep187", " éea☃Zg19f.0c.c☃g");
        ep::<Ep188, i64, E0>(c, "Ep188", "0bd-1édd/");
        ep::<Ep189, [u8; 4], A7>(c, "Ep189", "dX.Y0_éaeg");
        ep::<Ep190, B0, U0>(c, "Ep190", " e-  dg");
        ep::<Ep191, E0, [u8; 4]>(c, "Ep191", " cg. eZ1");
        ep::<Ep192, N1, B0>(c, "Ep192", "dggca");
        ep::<Ep193, [A1; 2], A4>(c, "Ep193", "bbb9X");
        ep::<Ep194, A2, B0>(c, "Ep194", "9fa0YcZ");
        ep::<Ep195, E1, (A3, E0, u16)>(c, "Ep195", "_c");
        ep::<Ep196, A4, [u8; 4]>(c, "Ep196", "☃☃0Yg☃déea");
        ep::<Ep197, B1, A2>(c, "Ep197", "01Xée");
        ep::<Ep198, T0, bool>(c, "Ep198", "._☃fé_géb_e");
        ep::<Ep199, String, B0>(c, "Ep199", "éaf");
        ep::<Ep200, T0, U0>(c, "Ep200", "gcd☃aeZe0");
        ep::<Ep201, A4, B1>(c, "Ep201", "00f1-0bYa.Y1X99gb9de.9 e a//Zé☃9_☃-g-é1éc☃9_d/. 1f0g0ééea-Yc-☃09déY009éd_0-e-1☃X-c- fZé☃ccé é0g- Z1☃☃eYb90_f00 e9é9Y☃/.f90dd   _0c");
        ep::<Ep202, E1, i64>(c, "Ep202", "/da9.fcZY");
        ep::<Ep203, B1, u16>(c, "Ep203", "10");
        ep::<Ep204, u8, (u8, A2)>(c, "Ep204", "//a.☃0☃ad.c1.XX0_");
        ep::<Ep205, A4, A4>(c, "Ep205", "aXgYZg1f91Xd.g--XX_/aeZc/-YYeg☃bZ.Z gf0f 0c.e☃1c.ebgc/9dfd/b.ZcZgfZ0.1X/0Yéf1fgfé_g__éaegb.bZZ1Y9ge1ééc d./é1c.01fag-. dZX☃aga fY0");
        ep::<Ep206, A7, A5>(c, "Ep206", "éd0bYYb1.b");
        ep::<Ep207, U0, [[u8; 2]; 3]>(c, "Ep207", "_Y__fYdb");
        ep::<Ep208, T0, A2>(c, "Ep208", "Z1_gd ");
        ep::<Ep209, u64, (A3, E0, u16)>(c, "Ep209", "Zag");
        ep::<Ep210, B1, A6>(c, "Ep210", "Zfb ");
        ep::<Ep211, [A1; 2], A7>(c, "Ep211", "☃☃ ");
        ep::<Ep212, T0, A2>(c, "Ep212", "009e☃fe/0");
        ep::<Ep213, B0, u8>(c, "Ep213", "dZc/.dé_b");
        ep::<Ep214, B1, char>(c, "Ep214", "1☃/c_0b/");
        ep::<Ep215, N0, [u8; 4]>(c, "Ep215", "9a0Z☃☃-ab-");
        ep::<Ep216, A2, ()>(c, "Ep216", "éc0");
        ep::<Ep217, (u8, A2), A1>(c, "Ep217", "☃191");
        ep::<Ep218, B0, [A1; 2]>(c, "Ep218", "9d9g0/1X☃ec/.écccb_gaeX éd_eé9éaféé☃gYgg");
        ep::<Ep219, (u8, A2), A1>(c, "Ep219", " fg1Yfe./b//");
        ep::<Ep220, A7, (u8, A2)>(c, "Ep220", "g--");
        ep::<Ep221, A4, char>(c, "Ep221", "ZYb é0Y.bf");
        ep::<Ep222, bool, f32>(c, "Ep222", "0bY /ad9.");
        ep::<Ep223, A5, A1>(c, "Ep223", "-aY-a._YfgaY0_X☃☃1bdagY9Z c_XdY0f.d9afaX");
        ep::<Ep224, bool, E1>(c, "Ep224", "0gég..d ");
        ep::<Ep225, u8, [u8; 4]>(c, "Ep225", "b0ec9☃Xé_ff-☃bcXcZ Y./fY.0c_01e1gb a1_fé");
        ep::<Ep226, A7, A5>(c, "Ep226", "☃ZZ");
        ep::<Ep227, u32, N0>(c, "Ep227", "1d-da ga9");
        ep::<Ep228, B1, N0>(c, "Ep228", "X/e");
        ep::<Ep229, [A1; 2], B0>(c, "Ep229", "0Z-g-a9 _a g_éaZab/f_f1_é☃X ☃--9e9e0/Y_0");
        ep::<Ep230, B1, ()>(c, "Ep230", "g1_9baéZ1-_ ☃0ed.ZgYg☃.dccXdX_☃f0. _gd☃90c_1e-. g1 e.9☃ 91 c gZ be9 éd_XYdaeéX0Z_fe1_ eeg.éeéfb-d-..Z_.YXd-b9X/bcac1ZY9Yeba_X☃gafY");
        ep::<Ep231, B0, A4>(c, "Ep231", " 1eX0b☃1cgd");
        ep::<Ep232, B0, A3>(c, "Ep232", " /aZ☃ ");
        ep::<Ep233, A7, A1>(c, "Ep233", "_9Xgbe");
        ep::<Ep234, [A1; 2], A5>(c, "Ep234", "g ☃cf9g0_d1");
        ep::<Ep235, [u8; 4], A5>(c, "Ep235", " Za X9☃/XcX0");
        ep::<Ep236, E1, U0>(c, "Ep236", "c-b");
        ep::<Ep237, u32, A6>(c, "Ep237", "f_a_XXdfé");
        ep::<Ep238, B1, A7>(c, "Ep238", ".YgX/é");
        ep::<Ep239, (u8, A2), bool>(c, "Ep239", "9e1X ");
        ep::<Ep240, U0, [A1; 2]>(c, "Ep240", "gf");
        ep::<Ep241, A6, u32>(c, "Ep241", "eg/aé");
        ep::<Ep242, E0, B0>(c, "Ep242", "dée ☃a/");
        ep::<Ep243, B1, B1>(c, "Ep243", "é☃/.a0XZ fX");
        ep::<Ep244, (A3, E0, u16), (A3, E0, u16)>(c, "Ep244", "_Y YYéaZg");
        ep::<Ep245, A4, A5>(c, "Ep245", "YXdb");
        ep::<Ep246, N1, [u8; 4]>(c, "Ep246", "/_d1c-dX_/");
        ep::<Ep247, A6, u64>(c, "Ep247", "d-1/-_XcZgXX");
        ep::<Ep248, A1, E1>(c, "Ep248", "-eZZX");
        ep::<Ep249, A5, i64>(c, "Ep249", "0_éggg-YY ");
        ep::<Ep250, A7, N1>(c, "Ep250", "d .11éXb");
        ep::<Ep251, char, u32>(c, "Ep251", "XcZg.");
        ep::<Ep252, A5, N0>(c, "Ep252", "1☃cX1☃-Ze./e/.fX/0_X☃..ag-.dbcZdcbY09Y19");
        ep::<Ep253, A6, u64>(c, "Ep253", "e YX010Za- 9 eab-");
        ep::<Ep254, B0, u8>(c, "Ep254", "9b☃_edY9dYéZ.e -.0  Y0a0 09b☃☃b_ Xg d/ce");
        ep::<Ep255, (), T0>(c, "Ep255", "/9gb9ég/ a.éZ☃1a1dé.Yca1.-d0fé/g/gé9Z1 0");
        ep::<Ep256, f32, T0>(c, "Ep256", "Za/☃.☃☃.-");
        ep::<Ep257, A1, A6>(c, "Ep257", "X9ec0");
        ep::<Ep258, A5, U0>(c, "Ep258", "-bc☃c");
        ep::<Ep259, N1, A8>(c, "Ep259", "1ZXfX/Y0☃/ca 9e--é.dgX91gd/dbYé0_dZb☃g/e");
        ep::<Ep260, E0, A0>(c, "Ep260", "b/");
        ep::<Ep261, (A3, E0, u16), String>(c, "Ep261", "bgag☃/.éX");
        ep::<Ep262, B1, E0>(c, "Ep262", "☃e.gb0ag");
        ep::<Ep263, i8, [u8; 4]>(c, "Ep263", "9Y☃g1b");
        ep::<Ep264, [[u8; 2]; 3], (u8, A2)>(c, "Ep264", "a");
        ep::<Ep265, U0, f32>(c, "Ep265", "9☃/X☃");
        ep::<Ep266, N0, A0>(c, "Ep266", "☃aX1/-.0gZ");
        ep::<Ep267, A1, char>(c, "Ep267", "1g  01b .");
        ep::<Ep268, (u8, A2), A1>(c, "Ep268", "☃fX☃é/Xg ☃.XY0/Y a-ff0YZ0f1dZd1fXZbZb.-1");
        ep::<Ep269, A2, B0>(c, "Ep269", "df0 Zef01a");
        ep_list(c, "e37", &LIST, true, &[(" a-9c", Key::for_path::<A4>(" a-9c"), Key::for_path::<u64>(" a-9c")), (".--", Key::for_path::<A0>(".--"), Key::for_path::<N0>(".--")), ("/9.-fZ_/a__a._☃b1gcebYXY1éXbf☃Yb9eccdc_a", Key::for_path::<[A1; 2]>("/9.-fZ_/a__a._☃b1gcebYXY1éXbf☃Yb9eccdc_a"), Key::for_path::<u32>("/9.-fZ_/a__a._☃b1gcebYXY1éXbf☃Yb9eccdc_a")), ("YYeé c", Key::for_path::<()>("YYeé c"), Key::for_path::<A1>("YYeé c")), ("/1Z YY", Key::for_path::<B0>("/1Z YY"), Key::for_path::<B0>("/1Z YY")), (".-é-/X91fe", Key::for_path::<E1>(".-é-/X91fe"), Key::for_path::<A1>(".-é-/X91fe")), ("Z_Yfbb0df. .cXc/ -g.d.add_☃ 1cé0Y-_-/☃eY0Zcda//ecXa.0./Y1cdc_Yd☃b1eée0Z91 é/b -bd/☃-- _9/bfe.XZéZéYdceb9agZe.céc-☃g-/ga90c_dX0.☃  ", Key::for_path::<B0>("Z_Yfbb0df. .cXc/ -g.d.add_☃ 1cé0Y-_-/☃eY0Zcda//ecXa.0./Y1cdc_Yd☃b1eée0Z91 é/b -bd/☃-- _9/bfe.XZéZéYdceb9agZe.céc-☃g-/ga90c_dX0.☃  "), Key::for_path::<String>("Z_Yfbb0df. .cXc/ -g.d.add_☃ 1cé0Y-_-/☃eY0Zcda//ecXa.0./Y1cdc_Yd☃b1eée0Z91 é/b -bd/☃-- _9/bfe.XZéZéYdceb9agZe.céc-☃g-/ga90c_dX0.☃  ")), ("ad0 féaaY", Key::for_path::<String>("ad0 féaaY"), Key::for_path::<B0>("ad0 féaaY")), ("9 Y", Key::for_path::<A7>("9 Y"), Key::for_path::<(u8, A2)>("9 Y")), ("9", Key::for_path::<B1>("9"), Key::for_path::<B0>("9")), (" Yg1Z90", Key::for_path::<A8>(" Yg1Z90"), Key::for_path::<A8>(" Yg1Z90")), ("Zc", Key::for_path::<A6>("Zc"), Key::for_path::<i8>("Zc")), ("a/g", Key::for_path::<u8>("a/g"), Key::for_path::<B0>("a/g")), ("Zcba.", Key::for_path::<B0>("Zcba."), Key::for_path::<[u8; 4]>("Zcba.")), (".a", Key::for_path::<A8>(".a"), Key::for_path::<u8>(".a")), (" -_ZfZcfe", Key::for_path::<N1>(" -_ZfZcfe"), Key::for_path::<u32>(" -_ZfZcfe")), ("dX1Z", Key::for_path::<N1>("dX1Z"), Key::for_path::<u8>("dX1Z")), ("", Key::for_path::<N1>(""), Key::for_path::<A5>("")), ("_Zc_a1bgdéYX-édb 09 .c0dYX/Ya_fcég_débé ", Key::for_path::<String>("_Zc_a1bgdéYX-édb 09 .c0dYX/Ya_fcég_débé "), Key::for_path::<B0>("_Zc_a1bgdéYX-édb 09 .c0dYX/Ya_fcég_débé ")), ("Z-", Key::for_path::<[[u8; 2]; 3]>("Z-"), Key::for_path::<E1>("Z-")), ("dc", Key::for_path::<A7>("dc"), Key::for_path::<String>("dc")), ("-- ", Key::for_path::<T0>("-- "), Key::for_path::<u8>("-- ")), ("cZ. é", Key::for_path::<i8>("cZ. é"), Key::for_path::<T0>("cZ. é")), (" ag. gafX9egd1dafé.g.0-Z9fcgeeb1/aX 1/X☃9-_ag0abbZ_baY/d1cg gg_f☃_Z0g_-d-Yb01-/ddfcdZZ9 /Yd91..9XXgdg0e1ebYfdY9egbgY☃aYZZ.9.11-900", Key::for_path::<E1>(" ag. gafX9egd1dafé.g.0-Z9fcgeeb1/aX 1/X☃9-_ag0abbZ_baY/d1cg gg_f☃_Z0g_-d-Yb01-/ddfcdZZ9 /Yd91..9XXgdg0e1ebYfdY9egbgY☃aYZZ.9.11-900"), Key::for_path::<A1>(" ag. gafX9egd1dafé.g.0-Z9fcgeeb1/aX 1/X☃9-_ag0abbZ_baY/d1cg gg_f☃_Z0g_-d-Yb01-/ddfcdZZ9 /Yd91..9XXgdg0e1ebYfdY9egbgY☃aYZZ.9.11-900")), ("Z f.Y-.9. _Y/ éd☃☃bbXYc0ZYc-c1/aZ-☃1e/-é", Key::for_path::<char>("Z f.Y-.9. _Y/ éd☃☃bbXYc0ZYc-c1/aZ-☃1e/-é"), Key::for_path::<B1>("Z f.Y-.9. _Y/ éd☃☃bbXYc0ZYc-c1/aZ-☃1e/-é")), ("é9Y-b ca.19YécZcdaéf/d Zaef9/0d9f-aYf-/-ga__Z0dcbegY-Z9ecZ_1f☃-fYf☃bYg- -a-.X0 .b0☃-91Y_gZ_aZ1ea☃-g-YY-Z fe☃/9éZ Xab/dggZ ebéZ.0☃a", Key::for_path::<B1>("é9Y-b ca.19YécZcdaéf/d Zaef9/0d9f-aYf-/-ga__Z0dcbegY-Z9ecZ_1f☃-fYf☃bYg- -a-.X0 .b0☃-91Y_gZ_aZ1ea☃-g-YY-Z fe☃/9éZ Xab/dggZ ebéZ.0☃a"), Key::for_path::<A8>("é9Y-b ca.19YécZcdaéf/d Zaef9/0d9f-aYf-/-ga__Z0dcbegY-Z9ecZ_1f☃-fYf☃bYg- -a-.X0 .b0☃-91Y_gZ_aZ1ea☃-g-YY-Z fe☃/9éZ Xab/dggZ ebéZ.0☃a")), ("dd", Key::for_path::<A8>("dd"), Key::for_path::<T0>("dd")), ("bZf", Key::for_path::<N0>("bZf"), Key::for_path::<u64>("bZf")), ("fd/e X ", Key::for_path::<B0>("fd/e X "), Key::for_path::<B0>("fd/e X ")), ("Xg1__9__Z0g ", Key::for_path::<N0>("Xg1__9__Z0g "), Key::for_path::<[A1; 2]>("Xg1__9__Z0g ")), ("éZ-0Y e.eXYéZ-Za Y/d☃010Ze/Y9aé/_Yé0YY☃0", Key::for_path::<B0>("éZ-0Y e.eXYéZ-Za Y/d☃010Ze/Y9aé/_Yé0YY☃0"), Key::for_path::<A3>("éZ-0Y e.eXYéZ-Za Y/d☃010Ze/Y9aé/_Yé0YY☃0")), ("ddféd", Key::for_path::<U0>("ddféd"), Key::for_path::<char>("ddféd")), ("ab", Key::for_path::<(A3, E0, u16)>("ab"), Key::for_path::<(A3, E0, u16)>("ab")), ("g YZé/.1", Key::for_path::<A8>("g YZé/.1"), Key::for_path::<N0>("g YZé/.1")), ("0c9_cY caXb", Key::for_path::<String>("0c9_cY caXb"), Key::for_path::<(A3, E0, u16)>("0c9_cY caXb")), ("fZ_b9f", Key::for_path::<f32>("fZ_b9f"), Key::for_path::<A6>("fZ_b9f")), ("_.d", Key::for_path::<A3>("_.d"), Key::for_path::<E0>("_.d")), ("c☃ff", Key::for_path::<N1>("c☃ff"), Key::for_path::<N0>("c☃ff")), ("☃☃bgcd", Key::for_path::<A4>("☃☃bgcd"), Key::for_path::<u32>("☃☃bgcd")), ("ZXX", Key::for_path::<N1>("ZXX"), Key::for_path::<(A3, E0, u16)>("ZXX")), ("1d", Key::for_path::<u32>("1d"), Key::for_path::<u64>("1d")), ("/☃caf_Xde", Key::for_path::<f32>("/☃caf_Xde"), Key::for_path::<A5>("/☃caf_Xde")), ("X-.-gZéé0d-b.Xbb_/dX_Xé__-Z.1Xéc1109.9ac", Key::for_path::<N1>("X-.-gZéé0d-b.Xbb_/dX_Xé__-Z.1Xéc1109.9ac"), Key::for_path::<B1>("X-.-gZéé0d-b.Xbb_/dX_Xé__-Z.1Xéc1109.9ac")), ("c9b", Key::for_path::<T0>("c9b"), Key::for_path::<()>("c9b")), ("g☃", Key::for_path::<N0>("g☃"), Key::for_path::<[u8; 4]>("g☃")), ("eéed19a/égd/daX-.YXéX- fabcfd.0a9/f☃eeg0", Key::for_path::<A5>("eéed19a/égd/daX-.YXéX- fabcfd.0a9/f☃eeg0"), Key::for_path::<E0>("eéed19a/égd/daX-.YXéX- fabcfd.0a9/f☃eeg0")), (" X/9e/dbY9é☃XXaéY", Key::for_path::<String>(" X/9e/dbY9é☃XXaéY"), Key::for_path::<A3>(" X/9e/dbY9é☃XXaéY")), ("Y-g", Key::for_path::<[[u8; 2]; 3]>("Y-g"), Key::for_path::<A3>("Y-g")), ("Y/11._//0Yf aZbe ", Key::for_path::<u64>("Y/11._//0Yf aZbe "), Key::for_path::<N1>("Y/11._//0Yf aZbe ")), ("-g.Y0☃gXad", Key::for_path::<()>("-g.Y0☃gXad"), Key::for_path::<B1>("-g.Y0☃gXad")), ("X.", Key::for_path::<N1>("X."), Key::for_path::<u64>("X.")), ("g☃ 9Y e", Key::for_path::<A2>("g☃ 9Y e"), Key::for_path::<N0>("g☃ 9Y e")), ("ZY ZY990/", Key::for_path::<u32>("ZY ZY990/"), Key::for_path::<N1>("ZY ZY990/")), (".Yé10a1Zae.0fdbYZ1d0a☃b91é.fcé e_/faXc _Yf-0c☃19Xf/Z09d/.cc9éce_ca☃é 1X90 ☃_1f/0e Y91 00ébY.Zg9eY9X☃cYefe YeaY9-☃_0d/g/fafcXY __19", Key::for_path::<B1>(".Yé10a1Zae.0fdbYZ1d0a☃b91é.fcé e_/faXc _Yf-0c☃19Xf/Z09d/.cc9éce_ca☃é 1X90 ☃_1f/0e Y91 00ébY.Zg9eY9X☃cYefe YeaY9-☃_0d/g/fafcXY __19"), Key::for_path::<bool>(".Yé10a1Zae.0fdbYZ1d0a☃b91é.fcé e_/faXc _Yf-0c☃19Xf/Z09d/.cc9éce_ca☃é 1X90 ☃_1f/0e Y91 00ébY.Zg9eY9X☃cYefe YeaY9-☃_0d/g/fafcXY __19")), ("/fZd0X☃eeéX/Xg1ad0☃9gZ0caabdggXZ99/0dcg☃", Key::for_path::<A8>("/fZd0X☃eeéX/Xg1ad0☃9gZ0caabdggXZ99/0dcg☃"), Key::for_path::<A4>("/fZd0X☃eeéX/Xg1ad0☃9gZ0caabdggXZ99/0dcg☃")), ("900X-/0.dé00f dZ9. /0fY.-.gfc-9cd_0aa-Xg9facc☃b-/e/Ya.0_é9/c0bc /cde.9 b0 __d g/0e---e01.☃9010-cd☃ebd0fa☃.- _-Y1-dé/11Y1g1YZXYa1ec", Key::for_path::<B0>("900X-/0.dé00f dZ9. /0fY.-.gfc-9cd_0aa-Xg9facc☃b-/e/Ya.0_é9/c0bc /cde.9 b0 __d g/0e---e01.☃9010-cd☃ebd0fa☃.- _-Y1-dé/11Y1g1YZXYa1ec"), Key::for_path::<[[u8; 2]; 3]>("900X-/0.dé00f dZ9. /0fY.-.gfc-9cd_0aa-Xg9facc☃b-/e/Ya.0_é9/c0bc /cde.9 b0 __d g/0e---e01.☃9010-cd☃ebd0fa☃.- _-Y1-dé/11Y1g1YZXYa1ec")), ("bYeY1f", Key::for_path::<B1>("bYeY1f"), Key::for_path::<E1>("bYeY1f")), ("1ecbYa-☃/", Key::for_path::<A8>("1ecbYa-☃/"), Key::for_path::<A2>("1ecbYa-☃/")), ("é/gXf", Key::for_path::<T0>("é/gXf"), Key::for_path::<A1>("é/gXf")), ("fé0éa1e1XXe_", Key::for_path::<A3>("fé0éa1e1XXe_"), Key::for_path::<B1>("fé0éa1e1XXe_")), ("eébY 9", Key::for_path::<U0>("eébY 9"), Key::for_path::<(u8, A2)>("eébY 9")), ("f. cX.fZZdga/c9☃☃", Key::for_path::<B1>("f. cX.fZZdga/c9☃☃"), Key::for_path::<[u8; 4]>("f. cX.fZZdga/c9☃☃")), (".", Key::for_path::<A6>("."), Key::for_path::<u32>(".")), ("01f", Key::for_path::<B1>("01f"), Key::for_path::<A0>("01f")), ("9fgegeécdbf☃céc/0fa- .é0 ☃/-b1Y_☃11a._aX91b_X-.c991.Z☃_éfeé-aYeéééé91e_afZdY9 -eXX-X-Y.a☃Xg-éc0 be.cggg/f/1_/01cgé_Zdg☃g.1eaé.-da-", Key::for_path::<String>("9fgegeécdbf☃céc/0fa- .é0 ☃/-b1Y_☃11a._aX91b_X-.c991.Z☃_éfeé-aYeéééé91e_afZdY9 -eXX-X-Y.a☃Xg-éc0 be.cggg/f/1_/01cgé_Zdg☃g.1eaé.-da-"), Key::for_path::<B0>("9fgegeécdbf☃céc/0fa- .é0 ☃/-b1Y_☃11a._aX91b_X-.c991.Z☃_éfeé-aYeéééé91e_afZdY9 -eXX-X-Y.a☃Xg-éc0 be.cggg/f/1_/01cgé_Zdg☃g.1eaé.-da-")), ("Y11☃ddeZaYbf☃/a☃é", Key::for_path::<N1>("Y11☃ddeZaYbf☃/a☃é"), Key::for_path::<E0>("Y11☃ddeZaYbf☃/a☃é")), ("/.aXX9ca", Key::for_path::<i64>("/.aXX9ca"), Key::for_path::<bool>("/.aXX9ca")), ("9bYég/.g", Key::for_path::<[A1; 2]>("9bYég/.g"), Key::for_path::<E0>("9bYég/.g")), ("-c.Zba X9é9éaffZ☃YbbYZgegfec0a-☃☃☃ce1bd1", Key::for_path::<N0>("-c.Zba X9é9éaffZ☃YbbYZgegfec0a-☃☃☃ce1bd1"), Key::for_path::<N1>("-c.Zba X9é9éaffZ☃YbbYZgegfec0a-☃☃☃ce1bd1")), ("/.e_eefde", Key::for_path::<()>("/.e_eefde"), Key::for_path::<bool>("/.e_eefde")), ("éY-gZcg0", Key::for_path::<B0>("éY-gZcg0"), Key::for_path::<i8>("éY-gZcg0")), ("Y._/", Key::for_path::<bool>("Y._/"), Key::for_path::<B1>("Y._/")), ("0ed", Key::for_path::<N1>("0ed"), Key::for_path::<(A3, E0, u16)>("0ed")), ("_c0", Key::for_path::<A2>("_c0"), Key::for_path::<B0>("_c0")), ("Ye", Key::for_path::<u64>("Ye"), Key::for_path::<(u8, A2)>("Ye")), ("é-/éY_Z☃-_éd", Key::for_path::<A0>("é-/éY_Z☃-_éd"), Key::for_path::<[[u8; 2]; 3]>("é-/éY_Z☃-_éd")), (" ", Key::for_path::<[u8; 4]>(" "), Key::for_path::<A8>(" ")), ("cYcXZéf.", Key::for_path::<u8>("cYcXZéf."), Key::for_path::<A7>("cYcXZéf.")), ("g", Key::for_path::<T0>("g"), Key::for_path::<U0>("g")), ("de-9aX0/", Key::for_path::<A5>("de-9aX0/"), Key::for_path::<B0>("de-9aX0/")), ("-dY", Key::for_path::<A5>("-dY"), Key::for_path::<u32>("-dY")), ("-/d", Key::for_path::<B0>("-/d"), Key::for_path::<[u8; 4]>("-/d")), ("dX.", Key::for_path::<B0>("dX."), Key::for_path::<i8>("dX.")), ("/aéad.Z.", Key::for_path::<[u8; 4]>("/aéad.Z."), Key::for_path::<[A1; 2]>("/aéad.Z.")), ("bfZg_égY", Key::for_path::<N0>("bfZg_égY"), Key::for_path::<[u8; 4]>("bfZg_égY")), ("X_1X00é-Yéf_b_YX/1df9//Z-1_0☃ée0c/f1f☃Xg9- dXg_X/-egYdZ.X☃0.0cé0/X d9fbgga-/.Y-Zb0☃YZeZXZ   1d19f☃-ecY_ééé-1☃YcXY_10.-_0Y0c0aa/- d", Key::for_path::<E1>("X_1X00é-Yéf_b_YX/1df9//Z-1_0☃ée0c/f1f☃Xg9- dXg_X/-egYdZ.X☃0.0cé0/X d9fbgga-/.Y-Zb0☃YZeZXZ   1d19f☃-ecY_ééé-1☃YcXY_10.-_0Y0c0aa/- d"), Key::for_path::<B0>("X_1X00é-Yéf_b_YX/1df9//Z-1_0☃ée0c/f1f☃Xg9- dXg_X/-egYdZ.X☃0.0cé0/X d9fbgga-/.Y-Zb0☃YZeZXZ   1d19f☃-ecY_ééé-1☃YcXY_10.-_0Y0c0aa/- d")), ("gcgX", Key::for_path::<u8>("gcgX"), Key::for_path::<String>("gcgX")), ("aX /X1/", Key::for_path::<B0>("aX /X1/"), Key::for_path::<u16>("aX /X1/")), ("-.X1d", Key::for_path::<A2>("-.X1d"), Key::for_path::<[u8; 4]>("-.X1d")), ("99XZf-bZ9", Key::for_path::<E0>("99XZf-bZ9"), Key::for_path::<[u8; 4]>("99XZf-bZ9")), ("Yg9_e", Key::for_path::<B0>("Yg9_e"), Key::for_path::<i8>("Yg9_e")), ("_.g9-", Key::for_path::<A0>("_.g9-"), Key::for_path::<[u8; 4]>("_.g9-")), ("é", Key::for_path::<u64>("é"), Key::for_path::<A8>("é")), ("Yc☃gé1gZ..Y", Key::for_path::<U0>("Yc☃gé1gZ..Y"), Key::for_path::<A6>("Yc☃gé1gZ..Y")), (" 9-f/1Yé/", Key::for_path::<B0>(" 9-f/1Yé/"), Key::for_path::<A2>(" 9-f/1Yé/")), ("aaX0 0 ab", Key::for_path::<[u8; 4]>("aaX0 0 ab"), Key::for_path::<[u8; 4]>("aaX0 0 ab")), ("/9eY1", Key::for_path::<A3>("/9eY1"), Key::for_path::<()>("/9eY1")), ("_ébg", Key::for_path::<i64>("_ébg"), Key::for_path::<U0>("_ébg")), ("ZYeY-f___bgY", Key::for_path::<B0>("ZYeY-f___bgY"), Key::for_path::<(A3, E0, u16)>("ZYeY-f___bgY")), ("☃g/..☃a- f0", Key::for_path::<bool>("☃g/..☃a- f0"), Key::for_path::<A5>("☃g/..☃a- f0")), ("Y☃gg0", Key::for_path::<(u8, A2)>("Y☃gg0"), Key::for_path::<i8>("Y☃gg0")), ("/", Key::for_path::<B0>("/"), Key::for_path::<A7>("/")), ("gc-", Key::for_path::<(u8, A2)>("gc-"), Key::for_path::<E0>("gc-")), ("Xa -Yfe_☃.XdaédY9", Key::for_path::<T0>("Xa -Yfe_☃.XdaédY9"), Key::for_path::<A3>("Xa -Yfe_☃.XdaédY9")), ("- ☃eZgYg/ZZé-0aeg", Key::for_path::<()>("- ☃eZgYg/ZZé-0aeg"), Key::for_path::<T0>("- ☃eZgYg/ZZé-0aeg")), ("_☃Xc☃", Key::for_path::<A3>("_☃Xc☃"), Key::for_path::<bool>("_☃Xc☃")), (". ☃ -fe0Xcgd10fc-", Key::for_path::<A4>(". ☃ -fe0Xcgd10fc-"), Key::for_path::<U0>(". ☃ -fe0Xcgd10fc-")), ("1_ce9", Key::for_path::<f32>("1_ce9"), Key::for_path::<u32>("1_ce9")), ("11Z9", Key::for_path::<U0>("11Z9"), Key::for_path::<f32>("11Z9")), ("f", Key::for_path::<u64>("f"), Key::for_path::<A4>("f")), ("X9aadZ_", Key::for_path::<A4>("X9aadZ_"), Key::for_path::<(u8, A2)>("X9aadZ_")), ("_é", Key::for_path::<A3>("_é"), Key::for_path::<E1>("_é")), ("-dZgf-/Zaé.", Key::for_path::<[u8; 4]>("-dZgf-/Zaé."), Key::for_path::<E0>("-dZgf-/Zaé.")), ("_d e_ X-☃/", Key::for_path::<i8>("_d e_ X-☃/"), Key::for_path::<f32>("_d e_ X-☃/")), ("b/Yd", Key::for_path::<bool>("b/Yd"), Key::for_path::<u8>("b/Yd")), ("gdee-g", Key::for_path::<B0>("gdee-g"), Key::for_path::<U0>("gdee-g")), ("Zf.1/", Key::for_path::<A0>("Zf.1/"), Key::for_path::<N1>("Zf.1/")), ("b0☃f1☃", Key::for_path::<A0>("b0☃f1☃"), Key::for_path::<B0>("b0☃f1☃")), ("1.190_0Y-0", Key::for_path::<E1>("1.190_0Y-0"), Key::for_path::<i64>("1.190_0Y-0")), ("dZ.é.", Key::for_path::<B1>("dZ.é."), Key::for_path::<String>("dZ.é.")), (".☃f.ca☃1.", Key::for_path::<B1>(".☃f.ca☃1."), Key::for_path::<u16>(".☃f.ca☃1.")), ("0Z-cf d .b1☃Z.☃é1/-bdfX 91dZc c.9-.☃Y9aZd☃.éeXb_e..Xgc0Z.109-☃ZXdb_Z eaca/.Y_-gébZdX0geZ_/-e0☃X00.0dXd 1Z1dd0fg_fXdeé☃dd-aZgeYbcéb", Key::for_path::<A3>("0Z-cf d .b1☃Z.☃é1/-bdfX 91dZc c.9-.☃Y9aZd☃.éeXb_e..Xgc0Z.109-☃ZXdb_Z eaca/.Y_-gébZdX0geZ_/-e0☃X00.0dXd 1Z1dd0fg_fXdeé☃dd-aZgeYbcéb"), Key::for_path::<(u8, A2)>("0Z-cf d .b1☃Z.☃é1/-bdfX 91dZc c.9-.☃Y9aZd☃.éeXb_e..Xgc0Z.109-☃ZXdb_Z eaca/.Y_-gébZdX0geZ_/-e0☃X00.0dXd 1Z1dd0fg_fXdeé☃dd-aZgeYbcéb")), ("d_.b-/", Key::for_path::<[u8; 4]>("d_.b-/"), Key::for_path::<A2>("d_.b-/")), ("_f", Key::for_path::<String>("_f"), Key::for_path::<(A3, E0, u16)>("_f")), ("1g-.a1Zé-dc", Key::for_path::<B1>("1g-.a1Zé-dc"), Key::for_path::<A8>("1g-.a1Zé-dc")), ("-fdbZ", Key::for_path::<B0>("-fdbZ"), Key::for_path::<E0>("-fdbZ")), ("ZfXgc.", Key::for_path::<[A1; 2]>("ZfXgc."), Key::for_path::<A0>("ZfXgc.")), ("/c/_cZg1", Key::for_path::<B0>("/c/_cZg1"), Key::for_path::<B0>("/c/_cZg1")), ("☃c1dab/aXaZcfY1éc9ae☃da☃9.d☃b9bYdYg_9XcedZaXg--caddce0gc9b eé0-/_Xé9Y._gZXXX Xde☃/9-01 -éef.9-éY_gc -e.YXY b .1//c 1Y_eZ9 fce..g_Y", Key::for_path::<A7>("☃c1dab/aXaZcfY1éc9ae☃da☃9.d☃b9bYdYg_9XcedZaXg--caddce0gc9b eé0-/_Xé9Y._gZXXX Xde☃/9-01 -éef.9-éY_gc -e.YXY b .1//c 1Y_eZ9 fce..g_Y"), Key::for_path::<A5>("☃c1dab/aXaZcfY1éc9ae☃da☃9.d☃b9bYdYg_9XcedZaXg--caddce0gc9b eé0-/_Xé9Y._gZXXX Xde☃/9-01 -éef.9-éY_gc -e.YXY b .1//c 1Y_eZ9 fce..g_Y")), (" -9☃cegbd._", Key::for_path::<B0>(" -9☃cegbd._"), Key::for_path::<B1>(" -9☃cegbd._")), ("c ", Key::for_path::<A4>("c "), Key::for_path::<u16>("c ")), ("☃ X", Key::for_path::<A4>("☃ X"), Key::for_path::<B0>("☃ X")), ("ZééZgcc1 1/", Key::for_path::<A1>("ZééZgcc1 1/"), Key::for_path::<char>("ZééZgcc1 1/")), ("bZ99g", Key::for_path::<A4>("bZ99g"), Key::for_path::<B1>("bZ99g")), ("__d", Key::for_path::<A1>("__d"), Key::for_path::<u8>("__d")), ("b./", Key::for_path::<u16>("b./"), Key::for_path::<i64>("b./")), ("fg1", Key::for_path::<E1>("fg1"), Key::for_path::<[A1; 2]>("fg1")), ("b/☃9éYb..fébab/-a", Key::for_path::<A0>("b/☃9éYb..fébab/-a"), Key::for_path::<B0>("b/☃9éYb..fébab/-a")), ("fb1-.YZ-1-", Key::for_path::<[u8; 4]>("fb1-.YZ-1-"), Key::for_path::<A0>("fb1-.YZ-1-")), ("/Ze0-", Key::for_path::<(u8, A2)>("/Ze0-"), Key::for_path::<[u8; 4]>("/Ze0-")), ("_fbe9ae1.-01 YcfZbc0Ydé1/ -e-éZbce.YaXd0.0dXbXgX☃e9☃f0éZ☃11_Z☃d-_ f0X0☃YYYé- ggf119e☃béY_ a édé☃bcgX_e1d_0_/X.-b.b/gg_Zffba0/90_0d", Key::for_path::<B1>("_fbe9ae1.-01 YcfZbc0Ydé1/ -e-éZbce.YaXd0.0dXbXgX☃e9☃f0éZ☃11_Z☃d-_ f0X0☃YYYé- ggf119e☃béY_ a édé☃bcgX_e1d_0_/X.-b.b/gg_Zffba0/90_0d"), Key::for_path::<A5>("_fbe9ae1.-01 YcfZbc0Ydé1/ -e-éZbce.YaXd0.0dXbXgX☃e9☃f0éZ☃11_Z☃d-_ f0X0☃YYYé- ggf119e☃béY_ a édé☃bcgX_e1d_0_/X.-b.b/gg_Zffba0/90_0d")), (".d-eX0ccg_ZZg0eZad/eg0X f/90 ☃1éYX☃.e/da", Key::for_path::<A5>(".d-eX0ccg_ZZg0eZad/eg0X f/90 ☃1éYX☃.e/da"), Key::for_path::<A6>(".d-eX0ccg_ZZg0eZad/eg0X f/90 ☃1éYX☃.e/da")), ("☃/f", Key::for_path::<N0>("☃/f"), Key::for_path::<A4>("☃/f")), ("f_☃c9", Key::for_path::<B1>("f_☃c9"), Key::for_path::<f32>("f_☃c9")), ("a 1", Key::for_path::<A0>("a 1"), Key::for_path::<E0>("a 1")), (".9", Key::for_path::<[[u8; 2]; 3]>(".9"), Key::for_path::<A0>(".9")), ("0X-", Key::for_path::<B0>("0X-"), Key::for_path::<A8>("0X-")), ("a_Z", Key::for_path::<[A1; 2]>("a_Z"), Key::for_path::<f32>("a_Z")), ("Ya.cfZ_0X ", Key::for_path::<A5>("Ya.cfZ_0X "), Key::for_path::<[[u8; 2]; 3]>("Ya.cfZ_0X ")), (". /d/", Key::for_path::<A4>(". /d/"), Key::for_path::<[u8; 4]>(". /d/")), ("ZX☃Z1", Key::for_path::<char>("ZX☃Z1"), Key::for_path::<A7>("ZX☃Z1")), ("a☃10de-X-df", Key::for_path::<A6>("a☃10de-X-df"), Key::for_path::<T0>("a☃10de-X-df")), ("X9gZ_ bcd0fa dddb☃-_de☃/Ya9-9 Yag9Z b9-☃Za☃bf0gb--Z9XZg.0 _.//é__ég_ .aZé-ca_aa/-feg-bcéZbaX☃_1 1gfé-9.0fX/fX9 Z.0c_bYc0.-d10eZg☃-", Key::for_path::<N0>("X9gZ_ bcd0fa dddb☃-_de☃/Ya9-9 Yag9Z b9-☃Za☃bf0gb--Z9XZg.0 _.//é__ég_ .aZé-ca_aa/-feg-bcéZbaX☃_1 1gfé-9.0fX/fX9 Z.0c_bYc0.-d10eZg☃-"), Key::for_path::<f32>("X9gZ_ bcd0fa dddb☃-_de☃/Ya9-9 Yag9Z b9-☃Za☃bf0gb--Z9XZg.0 _.//é__ég_ .aZé-ca_aa/-feg-bcéZbaX☃_1 1gfé-9.0fX/fX9 Z.0c_bYc0.-d10eZg☃-")), ("_c☃é", Key::for_path::<A1>("_c☃é"), Key::for_path::<B1>("_c☃é")), ("Z", Key::for_path::<[[u8; 2]; 3]>("Z"), Key::for_path::<u32>("Z")), ("_ Z☃é/Z1é", Key::for_path::<N0>("_ Z☃é/Z1é"), Key::for_path::<N1>("_ Z☃é/Z1é")), ("d-1egZb 9c", Key::for_path::<B1>("d-1egZb 9c"), Key::for_path::<A5>("d-1egZb 9c")), ("Zagbc-ébc//daég0é.9bYa Y ddX bc_cef1X/cbgc☃ 9.dé-.  .1ce-ebgcgfé90é.a_éca ea-1☃9e_ c1☃g☃é- eé9/g_d.Yggé☃Xaé9 _ef9 eZfXeYaYe9c99_ e", Key::for_path::<T0>("Zagbc-ébc//daég0é.9bYa Y ddX bc_cef1X/cbgc☃ 9.dé-.  .1ce-ebgcgfé90é.a_éca ea-1☃9e_ c1☃g☃é- eé9/g_d.Yggé☃Xaé9 _ef9 eZfXeYaYe9c99_ e"), Key::for_path::<[[u8; 2]; 3]>("Zagbc-ébc//daég0é.9bYa Y ddX bc_cef1X/cbgc☃ 9.dé-.  .1ce-ebgcgfé90é.a_éca ea-1☃9e_ c1☃g☃é- eé9/g_d.Yggé☃Xaé9 _ef9 eZfXeYaYe9c99_ e")), ("gY_e☃", Key::for_path::<[A1; 2]>("gY_e☃"), Key::for_path::<i64>("gY_e☃")), ("Y009e1f9☃", Key::for_path::<(A3, E0, u16)>("Y009e1f9☃"), Key::for_path::<bool>("Y009e1f9☃")), ("_ccbdd1XgZ b/Yb1.", Key::for_path::<B0>("_ccbdd1XgZ b/Yb1."), Key::for_path::<B1>("_ccbdd1XgZ b/Yb1.")), ("aYc 9a9a☃☃ef", Key::for_path::<[A1; 2]>("aYc 9a9a☃☃ef"), Key::for_path::<B0>("aYc 9a9a☃☃ef")), ("bécg1X/-g", Key::for_path::<A1>("bécg1X/-g"), Key::for_path::<A5>("bécg1X/-g")), ("e9-0 ", Key::for_path::<u16>("e9-0 "), Key::for_path::<N1>("e9-0 ")), ("gZZgYZ.f0", Key::for_path::<A7>("gZZgYZ.f0"), Key::for_path::<A2>("gZZgYZ.f0")), ("é1_cf", Key::for_path::<E0>("é1_cf"), Key::for_path::<(u8, A2)>("é1_cf")), ("ed1", Key::for_path::<A2>("ed1"), Key::for_path::<B0>("ed1")), ("fX  0e", Key::for_path::<u64>("fX  0e"), Key::for_path::<E1>("fX  0e")), ("dX0ed", Key::for_path::<()>("dX0ed"), Key::for_path::<u64>("dX0ed")), ("cg", Key::for_path::<u32>("cg"), Key::for_path::<B1>("cg")), ("Xdgc.ZYZ.", Key::for_path::<A2>("Xdgc.ZYZ."), Key::for_path::<(u8, A2)>("Xdgc.ZYZ.")), ("X☃XY☃c bfc9bZ0ZZ-0☃1-0eb1c-Z --9_.☃_-ecYa.dg ga1eYfffe c0efffé aeYbbgc0 g1gX☃-Ye-ZY_/0dddYagbce.cZ.c/Yb.._/9gY/g/0☃X_99-é0Ybfdddég", Key::for_path::<(u8, A2)>("X☃XY☃c bfc9bZ0ZZ-0☃1-0eb1c-Z --9_.☃_-ecYa.dg ga1eYfffe c0efffé aeYbbgc0 g1gX☃-Ye-ZY_/0dddYagbce.cZ.c/Yb.._/9gY/g/0☃X_99-é0Ybfdddég"), Key::for_path::<A0>("X☃XY☃c bfc9bZ0ZZ-0☃1-0eb1c-Z --9_.☃_-ecYa.dg ga1eYfffe c0efffé aeYbbgc0 g1gX☃-Ye-ZY_/0dddYagbce.cZ.c/Yb.._/9gY/g/0☃X_99-é0Ybfdddég")), ("0dg_Zg_cb -XdY Zf", Key::for_path::<A2>("0dg_Zg_cb -XdY Zf"), Key::for_path::<T0>("0dg_Zg_cb -XdY Zf")), ("9dfZ ", Key::for_path::<[A1; 2]>("9dfZ "), Key::for_path::<bool>("9dfZ ")), ("fZdaéYé-Zea1", Key::for_path::<char>("fZdaéYé-Zea1"), Key::for_path::<bool>("fZdaéYé-Zea1")), ("be9eédY1", Key::for_path::<(A3, E0, u16)>("be9eédY1"), Key::for_path::<T0>("be9eédY1")), ("Z-_bY", Key::for_path::<B0>("Z-_bY"), Key::for_path::<B0>("Z-_bY")), ("d☃ e/X☃", Key::for_path::<()>("d☃ e/X☃"), Key::for_path::<E0>("d☃ e/X☃")), ("0☃d1a", Key::for_path::<B0>("0☃d1a"), Key::for_path::<(u8, A2)>("0☃d1a")), ("/.☃e-afa_-dd", Key::for_path::<[u8; 4]>("/.☃e-afa_-dd"), Key::for_path::<u32>("/.☃e-afa_-dd")), ("0 09aa9Zc9a9é0g-XYdX d-bg__ae1c/eb..X.aeXXcfaé-☃☃é.YZ.//Z_b  fc☃Xf_-/☃bfYfX9_0écc-fYaéXY_d0gXfed_feg ZZ.dZc bYéX.0é9e-f-Z/é.Y0ZZg☃", Key::for_path::<u64>("0 09aa9Zc9a9é0g-XYdX d-bg__ae1c/eb..X.aeXXcfaé-☃☃é.YZ.//Z_b  fc☃Xf_-/☃bfYfX9_0écc-fYaéXY_d0gXfed_feg ZZ.dZc bYéX.0é9e-f-Z/é.Y0ZZg☃"), Key::for_path::<B0>("0 09aa9Zc9a9é0g-XYdX d-bg__ae1c/eb..X.aeXXcfaé-☃☃é.YZ.//Z_b  fc☃Xf_-/☃bfYfX9_0écc-fYaéXY_d0gXfed_feg ZZ.dZc bYéX.0é9e-f-Z/é.Y0ZZg☃")), ("gb _d99", Key::for_path::<(A3, E0, u16)>("gb _d99"), Key::for_path::<u64>("gb _d99")), ("._", Key::for_path::<[u8; 4]>("._"), Key::for_path::<N1>("._")), ("1YY0agZdgc0./ addgaé-☃c_0b_Ze☃0eb1☃b 0/Z", Key::for_path::<A1>("1YY0agZdgc0./ addgaé-☃c_0b_Ze☃0eb1☃b 0/Z"), Key::for_path::<B1>("1YY0agZdgc0./ addgaé-☃c_0b_Ze☃0eb1☃b 0/Z")), ("-1é", Key::for_path::<[[u8; 2]; 3]>("-1é"), Key::for_path::<String>("-1é")), ("--dgXf ", Key::for_path::<[[u8; 2]; 3]>("--dgXf "), Key::for_path::<E1>("--dgXf ")), ("X/ég ZéaX-Z", Key::for_path::<i8>("X/ég ZéaX-Z"), Key::for_path::<U0>("X/ég ZéaX-Z")), (" éea☃Zg19f.0c.c☃g", Key::for_path::<A7>(" éea☃Zg19f.0c.c☃g"), Key::for_path::<N0>(" éea☃Zg19f.0c.c☃g")), ("0bd-1édd/", Key::for_path::<i64>("0bd-1édd/"), Key::for_path::<E0>("0bd-1édd/")), ("dX.Y0_éaeg", Key::for_path::<[u8; 4]>("dX.Y0_éaeg"), Key::for_path::<A7>("dX.Y0_éaeg")), (" e-  dg", Key::for_path::<B0>(" e-  dg"), Key::for_path::<U0>(" e-  dg")), (" cg. eZ1", Key::for_path::<E0>(" cg. eZ1"), Key::for_path::<[u8; 4]>(" cg. eZ1")), ("dggca", Key::for_path::<N1>("dggca"), Key::for_path::<B0>("dggca")), ("bbb9X", Key::for_path::<[A1; 2]>("bbb9X"), Key::for_path::<A4>("bbb9X")), ("9fa0YcZ", Key::for_path::<A2>("9fa0YcZ"), Key::for_path::<B0>("9fa0YcZ")), ("_c", Key::for_path::<E1>("_c"), Key::for_path::<(A3, E0, u16)>("_c")), ("☃☃0Yg☃déea", Key::for_path::<A4>("☃☃0Yg☃déea"), Key::for_path::<[u8; 4]>("☃☃0Yg☃déea")), ("01Xée", Key::for_path::<B1>("01Xée"), Key::for_path::<A2>("01Xée")), ("._☃fé_géb_e", Key::for_path::<T0>("._☃fé_géb_e"), Key::for_path::<bool>("._☃fé_géb_e")), ("éaf", Key::for_path::<String>("éaf"), Key::for_path::<B0>("éaf")), ("gcd☃aeZe0", Key::for_path::<T0>("gcd☃aeZe0"), Key::for_path::<U0>("gcd☃aeZe0")), ("00f1-0bYa.Y1X99gb9de.9 e a//Zé☃9_☃-g-é1éc☃9_d/. 1f0g0ééea-Yc-☃09déY009éd_0-e-1☃X-c- fZé☃ccé é0g- Z1☃☃eYb90_f00 e9é9Y☃/.f90dd   _0c", Key::for_path::<A4>("00f1-0bYa.Y1X99gb9de.9 e a//Zé☃9_☃-g-é1éc☃9_d/. 1f0g0ééea-Yc-☃09déY009éd_0-e-1☃X-c- fZé☃ccé é0g- Z1☃☃eYb90_f00 e9é9Y☃/.f90dd   _0c"), Key::for_path::<B1>("00f1-0bYa.Y1X99gb9de.9 e a//Zé☃9_☃-g-é1éc☃9_d/. 1f0g0ééea-Yc-☃09déY009éd_0-e-1☃X-c- fZé☃ccé é0g- Z1☃☃eYb90_f00 e9é9Y☃/.f90dd   _0c")), ("/da9.fcZY", Key::for_path::<E1>("/da9.fcZY"), Key::for_path::<i64>("/da9.fcZY")), ("10", Key::for_path::<B1>("10"), Key::for_path::<u16>("10")), ("//a.☃0☃ad.c1.XX0_", Key::for_path::<u8>("//a.☃0☃ad.c1.XX0_"), Key::for_path::<(u8, A2)>("//a.☃0☃ad.c1.XX0_")), ("aXgYZg1f91Xd.g--XX_/aeZc/-YYeg☃bZ.Z gf0f 0c.e☃1c.ebgc/9dfd/b.ZcZgfZ0.1X/0Yéf1fgfé_g__éaegb.bZZ1Y9ge1ééc d./é1c.01fag-. dZX☃aga fY0", Key::for_path::<A4>("aXgYZg1f91Xd.g--XX_/aeZc/-YYeg☃bZ.Z gf0f 0c.e☃1c.ebgc/9dfd/b.ZcZgfZ0.1X/0Yéf1fgfé_g__éaegb.bZZ1Y9ge1ééc d./é1c.01fag-. dZX☃aga fY0"), Key::for_path::<A4>("aXgYZg1f91Xd.g--XX_/aeZc/-YYeg☃bZ.Z gf0f 0c.e☃1c.ebgc/9dfd/b.ZcZgfZ0.1X/0Yéf1fgfé_g__éaegb.bZZ1Y9ge1ééc d./é1c.01fag-. dZX☃aga fY0")), ("éd0bYYb1.b", Key::for_path::<A7>("éd0bYYb1.b"), Key::for_path::<A5>("éd0bYYb1.b")), ("_Y__fYdb", Key::for_path::<U0>("_Y__fYdb"), Key::for_path::<[[u8; 2]; 3]>("_Y__fYdb")), ("Z1_gd ", Key::for_path::<T0>("Z1_gd "), Key::for_path::<A2>("Z1_gd ")), ("Zag", Key::for_path::<u64>("Zag"), Key::for_path::<(A3, E0, u16)>("Zag")), ("Zfb ", Key::for_path::<B1>("Zfb "), Key::for_path::<A6>("Zfb ")), ("☃☃ ", Key::for_path::<[A1; 2]>("☃☃ "), Key::for_path::<A7>("☃☃ ")), ("009e☃fe/0", Key::for_path::<T0>("009e☃fe/0"), Key::for_path::<A2>("009e☃fe/0")), ("dZc/.dé_b", Key::for_path::<B0>("dZc/.dé_b"), Key::for_path::<u8>("dZc/.dé_b")), ("1☃/c_0b/", Key::for_path::<B1>("1☃/c_0b/"), Key::for_path::<char>("1☃/c_0b/")), ("9a0Z☃☃-ab-", Key::for_path::<N0>("9a0Z☃☃-ab-"), Key::for_path::<[u8; 4]>("9a0Z☃☃-ab-")), ("éc0", Key::for_path::<A2>("éc0"), Key::for_path::<()>("éc0")), ("☃191", Key::for_path::<(u8, A2)>("☃191"), Key::for_path::<A1>("☃191")), ("9d9g0/1X☃ec/.écccb_gaeX éd_eé9éaféé☃gYgg", Key::for_path::<B0>("9d9g0/1X☃ec/.écccb_gaeX éd_eé9éaféé☃gYgg"), Key::for_path::<[A1; 2]>("9d9g0/1X☃ec/.écccb_gaeX éd_eé9éaféé☃gYgg")), (" fg1Yfe./b//", Key::for_path::<(u8, A2)>(" fg1Yfe./b//"), Key::for_path::<A1>(" fg1Yfe./b//")), ("g--", Key::for_path::<A7>("g--"), Key::for_path::<(u8, A2)>("g--")), ("ZYb é0Y.bf", Key::for_path::<A4>("ZYb é0Y.bf"), Key::for_path::<char>("ZYb é0Y.bf")), ("0bY /ad9.", Key::for_path::<bool>("0bY /ad9."), Key::for_path::<f32>("0bY /ad9.")), ("-aY-a._YfgaY0_X☃☃1bdagY9Z c_XdY0f.d9afaX", Key::for_path::<A5>("-aY-a._YfgaY0_X☃☃1bdagY9Z c_XdY0f.d9afaX"), Key::for_path::<A1>("-aY-a._YfgaY0_X☃☃1bdagY9Z c_XdY0f.d9afaX")), ("0gég..d ", Key::for_path::<bool>("0gég..d "), Key::for_path::<E1>("0gég..d ")), ("b0ec9☃Xé_ff-☃bcXcZ Y./fY.0c_01e1gb a1_fé", Key::for_path::<u8>("b0ec9☃Xé_ff-☃bcXcZ Y./fY.0c_01e1gb a1_fé"), Key::for_path::<[u8; 4]>("b0ec9☃Xé_ff-☃bcXcZ Y./fY.0c_01e1gb a1_fé")), ("☃ZZ", Key::for_path::<A7>("☃ZZ"), Key::for_path::<A5>("☃ZZ")), ("1d-da ga9", Key::for_path::<u32>("1d-da ga9"), Key::for_path::<N0>("1d-da ga9")), ("X/e", Key::for_path::<B1>("X/e"), Key::for_path::<N0>("X/e")), ("0Z-g-a9 _a g_éaZab/f_f1_é☃X ☃--9e9e0/Y_0", Key::for_path::<[A1; 2]>("0Z-g-a9 _a g_éaZab/f_f1_é☃X ☃--9e9e0/Y_0"), Key::for_path::<B0>("0Z-g-a9 _a g_éaZab/f_f1_é☃X ☃--9e9e0/Y_0")), ("g1_9baéZ1-_ ☃0ed.ZgYg☃.dccXdX_☃f0. _gd☃90c_1e-. g1 e.9☃ 91 c gZ be9 éd_XYdaeéX0Z_fe1_ eeg.éeéfb-d-..Z_.YXd-b9X/bcac1ZY9Yeba_X☃gafY", Key::for_path::<B1>("g1_9baéZ1-_ ☃0ed.ZgYg☃.dccXdX_☃f0. _gd☃90c_1e-. g1 e.9☃ 91 c gZ be9 éd_XYdaeéX0Z_fe1_ eeg.éeéfb-d-..Z_.YXd-b9X/bcac1ZY9Yeba_X☃gafY"), Key::for_path::<()>("g1_9baéZ1-_ ☃0ed.ZgYg☃.dccXdX_☃f0. _gd☃90c_1e-. g1 e.9☃ 91 c gZ be9 éd_XYdaeéX0Z_fe1_ eeg.éeéfb-d-..Z_.YXd-b9X/bcac1ZY9Yeba_X☃gafY")), (" 1eX0b☃1cgd", Key::for_path::<B0>(" 1eX0b☃1cgd"), Key::for_path::<A4>(" 1eX0b☃1cgd")), (" /aZ☃ ", Key::for_path::<B0>(" /aZ☃ "), Key::for_path::<A3>(" /aZ☃ ")), ("_9Xgbe", Key::for_path::<A7>("_9Xgbe"), Key::for_path::<A1>("_9Xgbe")), ("g ☃cf9g0_d1", Key::for_path::<[A1; 2]>("g ☃cf9g0_d1"), Key::for_path::<A5>("g ☃cf9g0_d1")), (" Za X9☃/XcX0", Key::for_path::<[u8; 4]>(" Za X9☃/XcX0"), Key::for_path::<A5>(" Za X9☃/XcX0")), ("c-b", Key::for_path::<E1>("c-b"), Key::for_path::<U0>("c-b")), ("f_a_XXdfé", Key::for_path::<u32>("f_a_XXdfé"), Key::for_path::<A6>("f_a_XXdfé")), (".YgX/é", Key::for_path::<B1>(".YgX/é"), Key::for_path::<A7>(".YgX/é")), ("9e1X ", Key::for_path::<(u8, A2)>("9e1X "), Key::for_path::<bool>("9e1X ")), ("gf", Key::for_path::<U0>("gf"), Key::for_path::<[A1; 2]>("gf")), ("eg/aé", Key::for_path::<A6>("eg/aé"), Key::for_path::<u32>("eg/aé")), ("dée ☃a/", Key::for_path::<E0>("dée ☃a/"), Key::for_path::<B0>("dée ☃a/")), ("é☃/.a0XZ fX", Key::for_path::<B1>("é☃/.a0XZ fX"), Key::for_path::<B1>("é☃/.a0XZ fX")), ("_Y YYéaZg", Key::for_path::<(A3, E0, u16)>("_Y YYéaZg"), Key::for_path::<(A3, E0, u16)>("_Y YYéaZg")), ("YXdb", Key::for_path::<A4>("YXdb"), Key::for_path::<A5>("YXdb")), ("/_d1c-dX_/", Key::for_path::<N1>("/_d1c-dX_/"), Key::for_path::<[u8; 4]>("/_d1c-dX_/")), ("d-1/-_XcZgXX", Key::for_path::<A6>("d-1/-_XcZgXX"), Key::for_path::<u64>("d-1/-_XcZgXX")), ("-eZZX", Key::for_path::<A1>("-eZZX"), Key::for_path::<E1>("-eZZX")), ("0_éggg-YY ", Key::for_path::<A5>("0_éggg-YY "), Key::for_path::<i64>("0_éggg-YY ")), ("d .11éXb", Key::for_path::<A7>("d .11éXb"), Key::for_path::<N1>("d .11éXb")), ("XcZg.", Key::for_path::<char>("XcZg."), Key::for_path::<u32>("XcZg.")), ("1☃cX1☃-Ze./e/.fX/0_X☃..ag-.dbcZdcbY09Y19", Key::for_path::<A5>("1☃cX1☃-Ze./e/.fX/0_X☃..ag-.dbcZdcbY09Y19"), Key::for_path::<N0>("1☃cX1☃-Ze./e/.fX/0_X☃..ag-.dbcZdcbY09Y19")), ("e YX010Za- 9 eab-", Key::for_path::<A6>("e YX010Za- 9 eab-"), Key::for_path::<u64>("e YX010Za- 9 eab-")), ("9b☃_edY9dYéZ.e -.0  Y0a0 09b☃☃b_ Xg d/ce", Key::for_path::<B0>("9b☃_edY9dYéZ.e -.0  Y0a0 09b☃☃b_ Xg d/ce"), Key::for_path::<u8>("9b☃_edY9dYéZ.e -.0  Y0a0 09b☃☃b_ Xg d/ce")), ("/9gb9ég/ a.éZ☃1a1dé.Yca1.-d0fé/g/gé9Z1 0", Key::for_path::<()>("/9gb9ég/ a.éZ☃1a1dé.Yca1.-d0fé/g/gé9Z1 0"), Key::for_path::<T0>("/9gb9ég/ a.éZ☃1a1dé.Yca1.-d0fé/g/gé9Z1 0")), ("Za/☃.☃☃.-", Key::for_path::<f32>("Za/☃.☃☃.-"), Key::for_path::<T0>("Za/☃.☃☃.-")), ("X9ec0", Key::for_path::<A1>("X9ec0"), Key::for_path::<A6>("X9ec0")), ("-bc☃c", Key::for_path::<A5>("-bc☃c"), Key::for_path::<U0>("-bc☃c")), ("1ZXfX/Y0☃/ca 9e--é.dgX91gd/dbYé0_dZb☃g/e", Key::for_path::<N1>("1ZXfX/Y0☃/ca 9e--é.dgX91gd/dbYé0_dZb☃g/e"), Key::for_path::<A8>("1ZXfX/Y0☃/ca 9e--é.dgX91gd/dbYé0_dZb☃g/e")), ("b/", Key::for_path::<E0>("b/"), Key::for_path::<A0>("b/")), ("bgag☃/.éX", Key::for_path::<(A3, E0, u16)>("bgag☃/.éX"), Key::for_path::<String>("bgag☃/.éX")), ("☃e.gb0ag", Key::for_path::<B1>("☃e.gb0ag"), Key::for_path::<E0>("☃e.gb0ag")), ("9Y☃g1b", Key::for_path::<i8>("9Y☃g1b"), Key::for_path::<[u8; 4]>("9Y☃g1b")), ("a", Key::for_path::<[[u8; 2]; 3]>("a"), Key::for_path::<(u8, A2)>("a")), ("9☃/X☃", Key::for_path::<U0>("9☃/X☃"), Key::for_path::<f32>("9☃/X☃")), ("☃aX1/-.0gZ", Key::for_path::<N0>("☃aX1/-.0gZ"), Key::for_path::<A0>("☃aX1/-.0gZ")), ("1g  01b .", Key::for_path::<A1>("1g  01b ."), Key::for_path::<char>("1g  01b .")), ("☃fX☃é/Xg ☃.XY0/Y a-ff0YZ0f1dZd1fXZbZb.-1", Key::for_path::<(u8, A2)>("☃fX☃é/Xg ☃.XY0/Y a-ff0YZ0f1dZd1fXZbZb.-1"), Key::for_path::<A1>("☃fX☃é/Xg ☃.XY0/Y a-ff0YZ0f1dZd1fXZbZb.-1")), ("df0 Zef01a", Key::for_path::<A2>("df0 Zef01a"), Key::for_path::<B0>("df0 Zef01a"))], &[<A4 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <String as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <char as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <char as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <u16 as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <u16 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <u16 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <char as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <u16 as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <char as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <u16 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <char as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <String as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <String as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <u16 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <char as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <char as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <char as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <String as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <char as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA]);
    }
}
mod t37 {
    #![allow(dead_code, unused)]
    use super::*;
    topics! {
        list = LIST;
        direction = TopicDirection::ToServer;
        omit_std = true;
        | TopicTy | MessageTy | Path | 
        | --- | --- | --- | 
        | Tp0 | A2 | "_Y-a_X0f" | 
        | Tp1 | String | "Z_☃☃ecgacXe/.1gY-9cé Z agZYf--. Zg00 g1☃/9Zc-b-_ aXéc_./☃-d0Xaf0f 9ec éfX_Y/gd9g.g91c.é.f.9béfdbccéZ cd 19/d.g0-edZ  / cg☃b1-/0Yf_" | 
        | Tp2 | bool | "é_c/9fé-cé ." | 
        | Tp3 | B1<'a> | "0☃Zc09 --gc YedX9" | 
        | Tp4 | (A3, E0, u16) | "b /bg- " | 
        | Tp5 | B0<'a> | "ég./X" | 
        | Tp6 | B0<'a> | "bécXf_" | 
        | Tp7 | u64 | "0.é" | 
        | Tp8 | i8 | "bYc1" | 
        | Tp9 | A8 | "é☃Y9e" | 
        | Tp10 | [A1; 2] | "dZaY1fY.bgeXY-cY1Za9a-  e-☃XcdZg 1-/1e9g._f☃☃/ec001__fbéf1fZ YXé1.☃f1.b_9éé.a-/YbZ1edYeeYXg_adé111dcXdZ-eé.é/gX9Ye09._☃c-/gg9Y.fdZ" | 
        | Tp11 | U0 | "/eg" | 
        | Tp12 | B0<'a> | "" | 
        | Tp13 | char | "é_fe☃0fZb" | 
        | Tp14 | A0 | "9ag.f.g" | 
        | Tp15 | u32 | "-9é" | 
        | Tp16 | u8 | "aZ e.1c-" | 
        | Tp17 | E1 | "1Z1f 1f ." | 
        | Tp18 | B0<'a> | "9/☃ 9☃Z9" | 
        | Tp19 | A7 | "0XYY fféfb" | 
        | Tp20 | [[u8; 2]; 3] | "/dde_-cac" | 
        | Tp21 | B0<'a> | "f9//f" | 
        | Tp22 | String | "bcZe." | 
        | Tp23 | u64 | "bX_0.é_bZX" | 
        | Tp24 | A0 | "_é_" | 
        | Tp25 | [A1; 2] | "bf1__0ZXg☃ab9ede0_/.☃ZX Z/éZ_XféYb0éX.Zca9_c1é_0☃/aa0aXfeeag_-/9☃acéZééXfXeZ-é-é.Y9. Ze .☃f1e9fg//0aX.9égdcZb1_0Z/☃e/ ._b☃101d 9fb" | 
        | Tp26 | u32 | "a gcYZcYf ☃Y" | 
        | Tp27 | B1<'a> | "c" | 
        | Tp28 | B0<'a> | "90911e" | 
        | Tp29 | A3 | "-.Z/X_._g-/_" | 
        | Tp30 | B1<'a> | "_g" | 
        | Tp31 | T0 | "1 dYb/0a-a" | 
        | Tp32 | [A1; 2] | "9" | 
        | Tp33 | u32 | "dZ__-baX☃" | 
        | Tp34 | A0 | ".-XbX.☃écb_ " | 
        | Tp35 | u32 | "Yé" | 
        | Tp36 | N1 | "0 ZéX X_/" | 
        | Tp37 | i8 | "_ddY091eX☃☃dYb-X/b-/e0aYcfX1/☃g_b_b éabg" | 
        | Tp38 | A6 | "adéZé" | 
        | Tp39 | A3 | "//eéca/00gcf" | 
        | Tp40 | A6 | "☃-b_c☃é☃gg" | 
        | Tp41 | bool | ".eZf" | 
        | Tp42 | N0 | "Yg" | 
        | Tp43 | B0<'a> | "X☃00X-gefYXZ" | 
        | Tp44 | A6 | "Y0☃9  bZ_9Zebgdff" | 
        | Tp45 | () | "bffY☃Y" | 
        | Tp46 | B1<'a> | "1a_" | 
        | Tp47 | E0 | "é11a01df☃" | 
        | Tp48 | U0 | "d☃cY1é" | 
        | Tp49 | [u8; 4] | "_91" | 
        | Tp50 | A3 | "0Zg/9d-1éa" | 
        | Tp51 | B0<'a> | "/b" | 
        | Tp52 | u16 | "g☃fc" | 
        | Tp53 | A5 | "11gbaZ-XééX/1-99 /1fYcd1c-☃1c.-Z.bdc910Z/Yf90dZ-Y_.-/Y/f/9f_dadcé Y -.agéfbbd☃YXg-d1Y0e.aZ_.X d cgc_fbfYeaXeZc___Yf11g./9 gf- ☃☃- " | 
        | Tp54 | A3 | "é☃" | 
        | Tp55 | A8 | "b_gé.a☃" | 
        | Tp56 | i64 | "fX☃/./" | 
        | Tp57 | A5 | "ad10/" | 
        | Tp58 | u8 | "Z-adX_éd1ef/e/0fZ☃gaYed_éfZ-f-d-é☃fZ.- 0ZcY.éfécZXfXedé/99fcZ.Y☃/beé0f9g1.géa1.cg9e-g 9dééé☃9-X0X☃b d/-0/1ccYYéZ☃_☃9.éeY bbed e0aY" | 
        | Tp59 | A7 | " 1ddc /.aZ_.eb.-0-.e-1/ ☃☃_bYd1éZ ba.d☃aZYa-X0fYgaeYga e91e.__g fbc._b-☃eg-cb9/0Xecff1Z9éaXXfZda _edaZ☃é-/eadbcX_é-/Xa0X/1dc1/Zf1-" | 
        | Tp60 | u8 | "0é" | 
        | Tp61 | A0 | "_" | 
        | Tp62 | u32 | "0-9ééag" | 
        | Tp63 | B0<'a> | "9gYge☃☃d" | 
        | Tp64 | i64 | "/0-Zf g" | 
        | Tp65 | String | "bda☃b" | 
        | Tp66 | A2 | "cabg" | 
        | Tp67 | i64 | "009/./ fgg./cée9." | 
        | Tp68 | (u8, A2) | "/YXY /XeY☃f-é-éYYY_//_1cZf /be☃_dfbd be " | 
        | Tp69 | E0 | "99 cc" | 
        | Tp70 | u16 | ".df☃bggY00d☃" | 
        | Tp71 | E0 | "fg1.f- b-" | 
        | Tp72 | B0<'a> | "1_Ze110" | 
        | Tp73 | bool | "c." | 
        | Tp74 | A4 | "g0." | 
        | Tp75 | u8 | "/" | 
        | Tp76 | B0<'a> | "9b" | 
        | Tp77 | char | "gYg1éc-☃é-1aZaY/Xe☃Z-bd9bYX/c/.1bg☃1X9--ZéeX9gXaa 0gédY0_aXZe9cgf91f.19☃1gaaX☃ab9cd-bZ1c/9gg/ Yd9c_ .gfZébeZc.Ya._☃X_90daédag9/001" | 
        | Tp78 | E0 | "_c9dg☃☃☃0Z_a" | 
        | Tp79 | A6 | "/a/édb1☃/- 91. cYg1ecd00Yg Z éZ.-a.bgbaa" | 
        | Tp80 | (A3, E0, u16) | "gYdd" | 
        | Tp81 | bool | "fg déa" | 
        | Tp82 | [u8; 4] | "0Xdéb" | 
        | Tp83 | B1<'a> | "Y1é" | 
        | Tp84 | A6 | "b0" | 
        | Tp85 | U0 | "☃Y-éZ" | 
        | Tp86 | A8 | "d9ca" | 
        | Tp87 | A5 | "/9g  /d" | 
        | Tp88 | u64 | "9.Yb9Xea_XXgZ_Z/." | 
        | Tp89 | N1 | "191 YaXdX.0bYg.9ZYg-d.0_/9 a_éZZéfacfZed" | 
        | Tp90 | String | "Z" | 
        | Tp91 | A3 | "eZX/" | 
        | Tp92 | u64 | "Xd9dgdé91-☃eg Xc/.d ae/ff1b_Y/_Xd.Xefa9a☃_X9é0/g_/☃a.fY//aa_é0éb.☃ef/0-é gc-Z-bc/g-f/ é_Z.Yd-ééZcg/ad_Y0/XfZ-Zb_0f 0g/Z gcfééfX bb" | 
        | Tp93 | A5 | "/fZXa 0f1/fdge01Y" | 
        | Tp94 | A6 | "c☃aZaX/éZgé-cYYdZ" | 
        | Tp95 | E0 | "e/-cab☃Y" | 
        | Tp96 | A7 | "f-_.-Z☃ébc.☃Xa dé" | 
        | Tp97 | () | "Yf_c.f" | 
        | Tp98 | (u8, A2) | "☃Y-dg.9.ddd.b☃gXX ca//bY/0.c .X/Zé☃geYXZ" | 
        | Tp99 | i64 | "eeé" | 
        | Tp100 | A3 | "ce☃Xb éX" | 
        | Tp101 | u16 | "a _-b" | 
        | Tp102 | B1<'a> | "- afcdfXa" | 
        | Tp103 | A5 | "eX-Y-" | 
        | Tp104 | i8 | "." | 
        | Tp105 | (u8, A2) | "afb1Z_ée1." | 
        | Tp106 | f32 | "Yéb1Z9gb9☃f1.X1.☃._☃fb1Z9e ga☃_e_b_fZa d" | 
        | Tp107 | B1<'a> | "f9ec" | 
        | Tp108 | A7 | "b0X1/YX1XbY1☃e_a1/g/é cXa _ZbXffZ☃Z1f0YZ" | 
        | Tp109 | B0<'a> | "☃☃--." | 
        | Tp110 | T0 | "Z99Xf/e-éeZeX-☃cf" | 
        | Tp111 | B0<'a> | "a_.d/0c1" | 
        | Tp112 | u64 | "Zéb9Z" | 
        | Tp113 | B0<'a> | "/g1-e1aceaaXcbXYe.e☃e__e 0f-_Z☃bc-☃fYa.ZYdZdé0aZcgef-.9Ya☃ 100eacf_ cfd- be0béaéX0_YZcff dbZ1 gY-0_.add.☃ZXY_0gXZefb a.ae_9_g_11-0" | 
        | Tp114 | [[u8; 2]; 3] | "/fc/a " | 
        | Tp115 | B1<'a> | "dX0" | 
        | Tp116 | () | "cfgdc1X." | 
        | Tp117 | A4 | "1eY☃Y1d" | 
        | Tp118 | bool | "0/☃☃_dY1" | 
        | Tp119 | String | "Y0a" | 
        | Tp120 | () | "_Ze_/Y1Xe e" | 
        | Tp121 | A0 | "1" | 
        | Tp122 | () | "/0Z0Z/Z -f_" | 
        | Tp123 | N1 | "Z☃.b" | 
        | Tp124 | A8 | "f1bc9-0.d" | 
        | Tp125 | A4 | "e__/☃cbé" | 
        | Tp126 | bool | "☃acXe9_/d/bc _éX9Xeb_-fc☃ .0caa-Z  cd/a1Y/1d0f0b-_.aZ90 _ dY0-☃dXfbYXdbXY-9eee _./ge./.f9agéb-91☃9-b☃f/bf./0eafgZYZ--9b9Y cb☃.a.☃Y" | 
        | Tp127 | (u8, A2) | "X.ee1f f9☃b0dc9bb" | 
        | Tp128 | T0 | "Z0f.Z_aé9g" | 
        | Tp129 | E1 | "-g1" | 
        | Tp130 | A1 | "☃XbeébaZf" | 
        | Tp131 | [u8; 4] | ".ab_XY" | 
        | Tp132 | U0 | "1.0afe-0" | 
        | Tp133 | A6 | "XZYb.ecYZ☃-" | 
        | Tp134 | u16 | "0da-" | 
        | Tp135 | B1<'a> | "1b" | 
        | Tp136 | A1 | "_ b-a/aX" | 
        | Tp137 | u16 | "cd10." | 
        | Tp138 | B0<'a> | "f " | 
        | Tp139 | (u8, A2) | "a0Y1cYfXb" | 
        | Tp140 | A1 | "cc91f" | 
        | Tp141 | i8 | "fY☃ZcX 91_" | 
        | Tp142 | E0 | "/gg" | 
        | Tp143 | [u8; 4] | "ggcgX" | 
        | Tp144 | String | " " | 
        | Tp145 | N1 | "é  é☃Z_Z" | 
        | Tp146 | u16 | "f" | 
        | Tp147 | A5 | "cbb1" | 
        | Tp148 | char | "_cdbgc/" | 
        | Tp149 | [[u8; 2]; 3] | "Yfb _9" | 
        | Tp150 | (u8, A2) | "X" | 
        | Tp151 | E0 | "X g  1" | 
        | Tp152 | String | "_a.gZ" | 
        | Tp153 | B0<'a> | "é9.a_☃ZYad" | 
        | Tp154 | E0 | "☃/☃Yf_é -" | 
        | Tp155 | B0<'a> | "-9" | 
        | Tp156 | U0 | "-eé1" | 
        | Tp157 | B1<'a> | "1c__a-☃Xa" | 
        | Tp158 | N0 | "-eZdfe" | 
        | Tp159 | E0 | "-" | 
        | Tp160 | B1<'a> | "ge" | 
        | Tp161 | E0 | "e  Xe0d☃f-" | 
        | Tp162 | f32 | "1Z " | 
        | Tp163 | u8 | "d0b9" | 
        | Tp164 | E0 | "d" | 
        | Tp165 | u64 | "09 _Xd99☃ca.-1f9a/e9Y9eb.-_0_c_1é e-. 9e" | 
        | Tp166 | [u8; 4] | "99_Z0--.a9_" | 
        | Tp167 | B1<'a> | "_gbab-d" | 
        | Tp168 | E1 | "é__☃.__9ZY" | 
        | Tp169 | A6 | "a☃e/9cdZ☃9gé" | 
        | Tp170 | T0 | "Ye_0b" | 
        | Tp171 | N1 | "Xe.d" | 
        | Tp172 | (A3, E0, u16) | "Zb☃1X" | 
        | Tp173 | E1 | "1cZ_9Ze/" | 
        | Tp174 | A8 | "é" | 
        | Tp175 | A4 | "b.é" | 
        | Tp176 | [[u8; 2]; 3] | "0Z☃" | 
        | Tp177 | (A3, E0, u16) | "éX 0bXX_éZg" | 
        | Tp178 | N1 | "f1fZ-Z ./Y" | 
        | Tp179 | (A3, E0, u16) | "1ddZXb/" | 
        | Tp180 | N0 | "f-eaé1" | 
        | Tp181 | B0<'a> | "ac9Z" | 
        | Tp182 | B0<'a> | "_.9Xa/." | 
        | Tp183 | N0 | " Z/1fYccdeY9YZeXgY01bédbY--éé YY-c☃ZZ 0Z egd d☃Y.cg0é/bb0é YZa.-☃e 1YYc/☃fYb☃éZc.9-X./éd /.-X0.g.XYd-☃. _gg_YY-☃aY b1YYX1afg9_ Y ☃" | 
        | Tp184 | E0 | "fe☃é0a_YZf-" | 
        | Tp185 | A6 | "cd9gZ" | 
        | Tp186 | U0 | "e_.c" | 
        | Tp187 | f32 | "a1béZ_-cZfe.Y 1afY/9Y0eZdc☃1fdcXZb9Xb.aaa 9c.Zaé9.YZZ.g9c0X 9eXaY 0d/ . f09XXZc-e1gfbZedca9c109X_f10- 9/☃- _ f90☃ .aYbfbXXg. ☃1Yag" | 
        | Tp188 | A0 | ".-/bdfd" | 
        | Tp189 | B1<'a> | ".aZY" | 
        | Tp190 | A6 | "10c" | 
        | Tp191 | [[u8; 2]; 3] | "f g9 ff9-/☃/.1dc9" | 
        | Tp192 | u8 | "☃. f1.dXd9" | 
        | Tp193 | U0 | "-0e" | 
        | Tp194 | bool | "Y.9Ybd9be" | 
        | Tp195 | E0 | "é☃/Y-" | 
        | Tp196 | B0<'a> | "dc" | 
        | Tp197 | A0 | "gbfcX." | 
        | Tp198 | (A3, E0, u16) | "-0 _1df" | 
        | Tp199 | B0<'a> | "/efceggd09 Y" | 
        | Tp200 | A1 | "a" | 
        | Tp201 | i64 | "b1Z" | 
        | Tp202 | A1 | "YgX.__/" | 
        | Tp203 | A8 | "1dZ1" | 
        | Tp204 | T0 | "é-01 ffede" | 
        | Tp205 | u64 | "d-b09" | 
        | Tp206 | (u8, A2) | "é_1/g☃☃☃e_g_//bZ_Xg9eeg_Yda Zbcé☃1☃ébéf-./ag9Yf-.-1☃1ca.9 e/ZdXecZc9 0eYXZb1a_-f1bfY_bébd.-gXcd1b/a☃1a//b -éfagcd dbefdbg/e.☃☃_/-Y" | 
        | Tp207 | (u8, A2) | "11dgbb.dad" | 
        | Tp208 | A1 | "ddZ" | 
        | Tp209 | A3 | "X1 eYa☃0☃g1" | 
        | Tp210 | T0 | "fé0é_aZd f-" | 
        | Tp211 | A1 | "Z_Yéa/d1fgdf/_edf" | 
        | Tp212 | U0 | "YYY0" | 
        | Tp213 | [u8; 4] | "-fde/_fcgb" | 
        | Tp214 | f32 | "fdd0fY" | 
        | Tp215 | T0 | "0dc ce" | 
        | Tp216 | A2 | "_e0dbcYfd/Ya/édZéf 0b0.Y Yf01dZé/d90éf10" | 
        | Tp217 | A3 | "ZaXZ abgdea☃" | 
        | Tp218 | N0 | "aéYb-/☃c1ZXf-/Y/é" | 
        | Tp219 | A3 | "cZY Z☃ga" | 
        | Tp220 | [[u8; 2]; 3] | "f /Xef0a_-☃X1_ 01eYY/bg_YZY..Xf1b9ggf0é☃" | 
        | Tp221 | E1 | "a1XeY" | 
        | Tp222 | T0 | "XXf" | 
        | Tp223 | String | "cgZ/1☃☃_ ☃" | 
        | Tp224 | u8 | "ea-0Y" | 
        | Tp225 | B1<'a> | "b-bZY _bf" | 
        | Tp226 | String | "11Y ☃" | 
        | Tp227 | [u8; 4] | "-_d-ga0X" | 
        | Tp228 | f32 | "1Y-.0" | 
        | Tp229 | [u8; 4] | "☃91gb" | 
        | Tp230 | E1 | "/ééZ-" | 
        | Tp231 | A5 | "b_9eé_Ydd" | 
        | Tp232 | A6 | "0/dad-0af/" | 
        | Tp233 | bool | "10_X/Xf/1cg0 Z--_éc ébZ1☃eage 9// _9g_Zc" | 
        | Tp234 | String | "e9fd/90é☃Zd9☃dfcebb/éd/_cXZd.é0Xd.bd e0eb ae9ff gfZ0ZeeYbg .YZ.. cbg9_1XXé.b1ZééeX1cY0Y1eg☃☃éYge9Y/19 _g0dX11bf1dg 9de/e.Yd_0 g gg" | 
        | Tp235 | f32 | "ZXY9Z00a0écXXd b.dbf☃0é_ bYe9egb9Xf_.cYg1/-☃e/e_-9dZZdbea aX1cg/-☃.a_a_é-éXf/1Xfa001..f9f9X9.dc11dYXe-Y-g0_ ZYb1ffbYbdbé19.aYZ_9. " | 
        | Tp236 | () | "_/a_Y.c0c" | 
        | Tp237 | A6 | "0/c " | 
        | Tp238 | B1<'a> | "1Y/-ée☃☃☃X/eé-faX.ad.Zbc_d0c-Z_-0Y1-ceé " | 
        | Tp239 | A6 | "9dZ1/9cbg.Y_" | 
        | Tp240 | A1 | "eZ0-gbb0" | 
        | Tp241 | B1<'a> | "0_fg" | 
        | Tp242 | [[u8; 2]; 3] | "dZ9gg9" | 
        | Tp243 | A6 | " b" | 
        | Tp244 | A1 | " -ggXe9g-Y☃" | 
        | Tp245 | U0 | "ffXf9Zdd9. fZb-bage0☃X-.éf ☃X9beéY9débY9bXb1-YZ/9XZbe.bYéb9X☃/e-1ce_._1Zd9c☃g.e9/é/bY//Y-/a9 ad☃/e- aY/1g.YYYaaX9d./YcZY_-0☃ggf☃9g" | 
        | Tp246 | N0 | "f f☃0 1éZa -/Zébg" | 
        | Tp247 | A8 | "/éZ_f-f/b-egdéXcY1-19/0ég__cb009_Xa9_ b Y 11X./--/-Y.ff/gee/☃Xaé_1☃XYa._c11feb☃ é_f.1-/☃_cZéc☃ ☃-1g-c☃  1Z-cd.-aeZabb1/-éaéZ- df0d" | 
        | Tp248 | (u8, A2) | "a-0" | 
        | Tp249 | (u8, A2) | "a/gcZda☃0_☃" | 
        | Tp250 | A3 | "é1" | 
        | Tp251 | T0 | "fba.9cd- febZX- -b1Yé/Z9.9e9_ccc ZdXfcée" | 
        | Tp252 | A0 | "b" | 
        | Tp253 | B0<'a> | "/g" | 
        | Tp254 | A2 | "effcé" | 
        | Tp255 | [A1; 2] | "f_.gf0bg9é/X/9d_/Z9-eg 10.Zd-_Za0bY. Xge" | 
        | Tp256 | u64 | "eé☃é1" | 
        | Tp257 | N1 | "g0fgd" | 
        | Tp258 | u32 | "g9/f1" | 
        | Tp259 | B0<'a> | "☃g0éb/b0☃d  a/1X☃Z é☃eXé19fab9Xac0daéZ d" | 
        | Tp260 | (u8, A2) | "fc." | 
        | Tp261 | u32 | "ebé/_99.d☃_cb.g1é" | 
        | Tp262 | u64 | "ébae.1Yd9_1" | 
        | Tp263 | [u8; 4] | "YY☃b1f.d1" | 
        | Tp264 | A6 | "-Xee.écX9X.X/YXc/" | 
        | Tp265 | U0 | "a☃é0g.éf_9" | 
        | Tp266 | char | "b-gcZe 9 X.-a X☃Y" | 
        | Tp267 | i64 | "d9a/0" | 
        | Tp268 | A5 | "-Z91.afg" | 
        | Tp269 | B0<'a> | "cXdb/X.aZdX-Xc-c☃" | 
    }
    pub fn check(c: &mut Ctx) {
        tp::<Tp0, A2>(c, "Tp0", "_Y-a_X0f");
        tp::<Tp1, String>(c, "Tp1", "Z_☃☃ecgacXe/.1gY-9cé Z agZYf--. Zg00 g1☃/9Zc-b-_ aXéc_./☃-d0Xaf0f 9ec éfX_Y/gd9g.g91c.é.f.9béfdbccéZ cd 19/d.g0-edZ  / cg☃b1-/0Yf_");
        tp::<Tp2, bool>(c, "Tp2", "é_c/9fé-cé .");
        tp::<Tp3, B1>(c, "Tp3", "0☃Zc09 --gc YedX9");
        tp::<Tp4, (A3, E0, u16)>(c, "Tp4", "b /bg- ");
        tp::<Tp5, B0>(c, "Tp5", "ég./X");
        tp::<Tp6, B0>(c, "Tp6", "bécXf_");
        tp::<Tp7, u64>(c, "Tp7", "0.é");
        tp::<Tp8, i8>(c, "Tp8", "bYc1");
        tp::<Tp9, A8>(c, "Tp9", "é☃Y9e");
        tp::<Tp10, [A1; 2]>(c, "Tp10", "dZaY1fY.bgeXY-cY1Za9a-  e-☃XcdZg 1-/1e9g._f☃☃/ec001__fbéf1fZ YXé1.☃f1.b_9éé.a-/YbZ1edYeeYXg_adé111dcXdZ-eé.é/gX9Ye09._☃c-/gg9Y.fdZ");
        tp::<Tp11, U0>(c, "Tp11", "/eg");
        tp::<Tp12, B0>(c, "Tp12", "");
        tp::<Tp13, char>(c, "Tp13", "é_fe☃0fZb");
        tp::<Tp14, A0>(c, "Tp14", "9ag.f.g");
        tp::<Tp15, u32>(c, "Tp15", "-9é");
        tp::<Tp16, u8>(c, "Tp16", "aZ e.1c-");
        tp::<Tp17, E1>(c, "Tp17", "1Z1f 1f .");
        tp::<Tp18, B0>(c, "Tp18", "9/☃ 9☃Z9");
        tp::<Tp19, A7>(c, "Tp19", "0XYY fféfb");
        tp::<Tp20, [[u8; 2]; 3]>(c, "Tp20", "/dde_-cac");
        tp::<Tp21, B0>(c, "Tp21", "f9//f");
        tp::<Tp22, String>(c, "Tp22", "bcZe.");
        tp::<Tp23, u64>(c, "Tp23", "bX_0.é_bZX");
        tp::<Tp24, A0>(c, "Tp24", "_é_");
        tp::<Tp25, [A1; 2]>(c, "Tp25", "bf1__0ZXg☃ab9ede0_/.☃ZX Z/éZ_XféYb0éX.Zca9_c1é_0☃/aa0aXfeeag_-/9☃acéZééXfXeZ-é-é.Y9. Ze .☃f1e9fg//0aX.9égdcZb1_0Z/☃e/ ._b☃101d 9fb");
        tp::<Tp26, u32>(c, "Tp26", "a gcYZcYf ☃Y");
        tp::<Tp27, B1>(c, "Tp27", "c");
        tp::<Tp28, B0>(c, "Tp28", "90911e");
        tp::<Tp29, A3>(c, "Tp29", "-.Z/X_._g-/_");
        tp::<Tp30, B1>(c, "Tp30", "_g");
        tp::<Tp31, T0>(c, "Tp31", "1 dYb/0a-a");
        tp::<Tp32, [A1; 2]>(c, "Tp32", "9");
        tp::<Tp33, u32>(c, "Tp33", "dZ__-baX☃");
        tp::<Tp34, A0>(c, "Tp34", ".-XbX.☃écb_ ");
        tp::<Tp35, u32>(c, "Tp35", "Yé");
        tp::<Tp36, N1>(c, "Tp36", "0 ZéX X_/");
        tp::<Tp37, i8>(c, "Tp37", "_ddY091eX☃☃dYb-X/b-/e0aYcfX1/☃g_b_b éabg");
        tp::<Tp38, A6>(c, "Tp38", "adéZé");
        tp::<Tp39, A3>(c, "Tp39", "//eéca/00gcf");
        tp::<Tp40, A6>(c, "Tp40", "☃-b_c☃é☃gg");
        tp::<Tp41, bool>(c, "Tp41", ".eZf");
        tp::<Tp42, N0>(c, "Tp42", "Yg");
        tp::<Tp43, B0>(c, "Tp43", "X☃00X-gefYXZ");
        tp::<Tp44, A6>(c, "Tp44", "Y0☃9  bZ_9Zebgdff");
        tp::<Tp45, ()>(c, "Tp45", "bffY☃Y");
        tp::<Tp46, B1>(c, "Tp46", "1a_");
        tp::<Tp47, E0>(c, "Tp47", "é11a01df☃");
        tp::<Tp48, U0>(c, "Tp48", "d☃cY1é");
        tp::<Tp49, [u8; 4]>(c, "Tp49", "_91");
        tp::<Tp50, A3>(c, "Tp50", "0Zg/9d-1éa");
        tp::<Tp51, B0>(c, "Tp51", "/b");
        tp::<Tp52, u16>(c, "Tp52", "g☃fc");
        tp::<Tp53, A5>(c, "Tp53", "11gbaZ-XééX/1-99 /1fYcd1c-☃1c.-Z.bdc910Z/Yf90dZ-Y_.-/Y/f/9f_dadcé Y -.agéfbbd☃YXg-d1Y0e.aZ_.X d cgc_fbfYeaXeZc___Yf11g./9 gf- ☃☃- ");
        tp::<Tp54, A3>(c, "Tp54", "é☃");
        tp::<Tp55, A8>(c, "Tp55", "b_gé.a☃");
        tp::<Tp56, i64>(c, "Tp56", "fX☃/./");
        tp::<Tp57, A5>(c, "Tp57", "ad10/");
        tp::<Tp58, u8>(c, "Tp58", "Z-adX_éd1ef/e/0fZ☃gaYed_éfZ-f-d-é☃fZ.- 0ZcY.éfécZXfXedé/99fcZ.Y☃/beé0f9g1.géa1.cg9e-g 9dééé☃9-X0X☃b d/-0/1ccYYéZ☃_☃9.éeY bbed e0aY");
        tp::<Tp59, A7>(c, "Tp59", " 1ddc /.aZ_.eb.-0-.e-1/ ☃☃_bYd1éZ ba.d☃aZYa-X0fYgaeYga e91e.__g fbc._b-☃eg-cb9/0Xecff1Z9éaXXfZda _edaZ☃é-/eadbcX_é-/Xa0X/1dc1/Zf1-");
        tp::<Tp60, u8>(c, "Tp60", "0é");
        tp::<Tp61, A0>(c, "Tp61", "_");
        tp::<Tp62, u32>(c, "Tp62", "0-9ééag");
        tp::<Tp63, B0>(c, "Tp63", "9gYge☃☃d");
        tp::<Tp64, i64>(c, "Tp64", "/0-Zf g");
        tp::<Tp65, String>(c, "Tp65", "bda☃b");
        tp::<Tp66, A2>(c, "Tp66", "cabg");
        tp::<Tp67, i64>(c, "Tp67", "009/./ fgg./cée9.");
        tp::<Tp68, (u8, A2)>(c, "Tp68", "/YXY /XeY☃f-é-éYYY_//_1cZf /be☃_dfbd be ");
        tp::<Tp69, E0>(c, "Tp69", "99 cc");
        tp::<Tp70, u16>(c, "Tp70", ".df☃bggY00d☃");
        tp::<Tp71, E0>(c, "Tp71", "fg1.f- b-");
        tp::<Tp72, B0>(c, "Tp72", "1_Ze110");
        tp::<Tp73, bool>(c, "Tp73", "c.");
        tp::<Tp74, A4>(c, "Tp74", "g0.");
        tp::<Tp75, u8>(c, "Tp75", "/");
        tp::<Tp76, B0>(c, "Tp76", "9b");
        tp::<Tp77, char>(c, "Tp77", "gYg1éc-☃é-1aZaY/Xe☃Z-bd9bYX/c/.1bg☃1X9--ZéeX9gXaa 0gédY0_aXZe9cgf91f.19☃1gaaX☃ab9cd-bZ1c/9gg/ Yd9c_ .gfZébeZc.Ya._☃X_90daédag9/001");
        tp::<Tp78, E0>(c, "Tp78", "_c9dg☃☃☃0Z_a");
        tp::<Tp79, A6>(c, "Tp79", "/a/édb1☃/- 91. cYg1ecd00Yg Z éZ.-a.bgbaa");
        tp::<Tp80, (A3, E0, u16)>(c, "Tp80", "gYdd");
        tp::<Tp81, bool>(c, "Tp81", "fg déa");
        tp::<Tp82, [u8; 4]>(c, "Tp82", "0Xdéb");
        tp::<Tp83, B1>(c, "Tp83", "Y1é");
        tp::<Tp84, A6>(c, "Tp84", "b0");
        tp::<Tp85, U0>(c, "Tp85", "☃Y-éZ");
        tp::<Tp86, A8>(c, "Tp86", "d9ca");
        tp::<Tp87, A5>(c, "Tp87", "/9g  /d");
        tp::<Tp88, u64>(c, "Tp88", "9.Yb9Xea_XXgZ_Z/.");
        tp::<Tp89, N1>(c, "Tp89", "191 YaXdX.0bYg.9ZYg-d.0_/9 a_éZZéfacfZed");
        tp::<Tp90, String>(c, "Tp90", "Z");
        tp::<Tp91, A3>(c, "Tp91", "eZX/");
        tp::<Tp92, u64>(c, "Tp92", "Xd9dgdé91-☃eg Xc/.d ae/ff1b_Y/_Xd.Xefa9a☃_X9é0/g_/☃a.fY//aa_é0éb.☃ef/0-é gc-Z-bc/g-f/ é_Z.Yd-ééZcg/ad_Y0/XfZ-Zb_0f 0g/Z gcfééfX bb");
        tp::<Tp93, A5>(c, "Tp93", "/fZXa 0f1/fdge01Y");
        tp::<Tp94, A6>(c, "Tp94", "c☃aZaX/éZgé-cYYdZ");
        tp::<Tp95, E0>(c, "Tp95", "e/-cab☃Y");
        tp::<Tp96, A7>(c, "Tp96", "f-_.-Z☃ébc.☃Xa dé");
        tp::<Tp97, ()>(c, "Tp97", "Yf_c.f");
        tp::<Tp98, (u8, A2)>(c, "Tp98", "☃Y-dg.9.ddd.b☃gXX ca//bY/0.c .X/Zé☃geYXZ");
        tp::<Tp99, i64>(c, "Tp99", "eeé");
        tp::<Tp100, A3>(c, "Tp100", "ce☃Xb éX");
        tp::<Tp101, u16>(c, "Tp101", "a _-b");
        tp::<Tp102, B1>(c, "Tp102", "- afcdfXa");
        tp::<Tp103, A5>(c, "Tp103", "eX-Y-");
        tp::<Tp104, i8>(c, "Tp104", ".");
        tp::<Tp105, (u8, A2)>(c, "Tp105", "afb1Z_ée1.");
        tp::<Tp106, f32>(c, "Tp106", "Yéb1Z9gb9☃f1.X1.☃._☃fb1Z9e ga☃_e_b_fZa d");
        tp::<Tp107, B1>(c, "Tp107", "f9ec");
        tp::<Tp108, A7>(c, "Tp108", "b0X1/YX1XbY1☃e_a1/g/é cXa _ZbXffZ☃Z1f0YZ");
        tp::<Tp109, B0>(c, "Tp109", "☃☃--.");
        tp::<Tp110, T0>(c, "Tp110", "Z99Xf/e-éeZeX-☃cf");
        tp::<Tp111, B0>(c, "Tp111", "a_.d/0c1");
        tp::<Tp112, u64>(c, "Tp112", "Zéb9Z");
        tp::<Tp113, B0>(c, "Tp113", "/g1-e1aceaaXcbXYe.e☃e__e 0f-_Z☃bc-☃fYa.ZYdZdé0aZcgef-.9Ya☃ 100eacf_ cfd- be0béaéX0_YZcff dbZ1 gY-0_.add.☃ZXY_0gXZefb a.ae_9_g_11-0");
        tp::<Tp114, [[u8; 2]; 3]>(c, "Tp114", "/fc/a ");
        tp::<Tp115, B1>(c, "Tp115", "dX0");
        tp::<Tp116, ()>(c, "Tp116", "cfgdc1X.");
        tp::<Tp117, A4>(c, "Tp117", "1eY☃Y1d");
        tp::<Tp118, bool>(c, "Tp118", "0/☃☃_dY1");
        tp::<Tp119, String>(c, "Tp119", "Y0a");
        tp::<Tp120, ()>(c, "Tp120", "_Ze_/Y1Xe e");
        tp::<Tp121, A0>(c, "Tp121", "1");
        tp::<Tp122, ()>(c, "Tp122", "/0Z0Z/Z -f_");
        tp::<Tp123, N1>(c, "Tp123", "Z☃.b");
        tp::<Tp124, A8>(c, "Tp124", "f1bc9-0.d");
        tp::<Tp125, A4>(c, "Tp125", "e__/☃cbé");
        tp::<Tp126, bool>(c, "Tp126", "☃acXe9_/d/bc _éX9Xeb_-fc☃ .0caa-Z  cd/a1Y/1d0f0b-_.aZ90 _ dY0-☃dXfbYXdbXY-9eee _./ge./.f9agéb-91☃9-b☃f/bf./0eafgZYZ--9b9Y cb☃.a.☃Y");
        tp::<Tp127, (u8, A2)>(c, "Tp127", "X.ee1f f9☃b0dc9bb");
        tp::<Tp128, T0>(c, "Tp128", "Z0f.Z_aé9g");
        tp::<Tp129, E1>(c, "Tp129", "-g1");
        tp::<Tp130, A1>(c, "Tp130", "☃XbeébaZf");
        tp::<Tp131, [u8; 4]>(c, "Tp131", ".ab_XY");
        tp::<Tp132, U0>(c, "Tp132", "1.0afe-0");
        tp::<Tp133, A6>(c, "Tp133", "XZYb.ecYZ☃-");
        tp::<Tp134, u16>(c, "Tp134", "0da-");
        tp::<Tp135, B1>(c, "Tp135", "1b");
        tp::<Tp136, A1>(c, "Tp136", "_ b-a/aX");
        tp::<Tp137, u16>(c, "Tp137", "cd10.");
        tp::<Tp138, B0>(c, "Tp138", "f ");
        tp::<Tp139, (u8, A2)>(c, "Tp139", "a0Y1cYfXb");
        tp::<Tp140, A1>(c, "Tp140", "cc91f");
        tp::<Tp141, i8>(c, "Tp141", "fY☃ZcX 91_");
        tp::<Tp142, E0>(c, "Tp142", "/gg");
        tp::<Tp143, [u8; 4]>(c, "Tp143", "ggcgX");
        tp::<Tp144, String>(c, "Tp144", " ");
        tp::<Tp145, N1>(c, "Tp145", "é  é☃Z_Z");
        tp::<Tp146, u16>(c, "Tp146", "f");
        tp::<Tp147, A5>(c, "Tp147", "cbb1");
        tp::<Tp148, char>(c, "Tp148", "_cdbgc/");
        tp::<Tp149, [[u8; 2]; 3]>(c, "Tp149", "Yfb _9");
        tp::<Tp150, (u8, A2)>(c, "Tp150", "X");
        tp::<Tp151, E0>(c, "Tp151", "X g  1");
        tp::<Tp152, String>(c, "Tp152", "_a.gZ");
        tp::<Tp153, B0>(c, "Tp153", "é9.a_☃ZYad");
        tp::<Tp154, E0>(c, "Tp154", "☃/☃Yf_é -");
        tp::<Tp155, B0>(c, "Tp155", "-9");
        tp::<Tp156, U0>(c, "Tp156", "-eé1");
        tp::<Tp157, B1>(c, "Tp157", "1c__a-☃Xa");
        tp::<Tp158, N0>(c, "Tp158", "-eZdfe");
        tp::<Tp159, E0>(c, "Tp159", "-");
        tp::<Tp160, B1>(c, "Tp160", "ge");
        tp::<Tp161, E0>(c, "Tp161", "e  Xe0d☃f-");
        tp::<Tp162, f32>(c, "Tp162", "1Z ");
        tp::<Tp163, u8>(c, "Tp163", "d0b9");
        tp::<Tp164, E0>(c, "Tp164", "d");
        tp::<Tp165, u64>(c, "Tp165", "09 _Xd99☃ca.-1f9a/e9Y9eb.-_0_c_1é e-. 9e");
        tp::<Tp166, [u8; 4]>(c, "Tp166", "99_Z0--.a9_");
        tp::<Tp167, B1>(c, "Tp167", "_gbab-d");
        tp::<Tp168, E1>(c, "Tp168", "é__☃.__9ZY");
        tp::<Tp169, A6>(c, "Tp169", "a☃e/9cdZ☃9gé");
        tp::<Tp170, T0>(c, "Tp170", "Ye_0b");
        tp::<Tp171, N1>(c, "Tp171", "Xe.d");
        tp::<Tp172, (A3, E0, u16)>(c, "Tp172", "Zb☃1X");
        tp::<Tp173, E1>(c, "Tp173", "1cZ_9Ze/");
        tp::<Tp174, A8>(c, "Tp174", "é");
        tp::<Tp175, A4>(c, "Tp175", "b.é");
        tp::<Tp176, [[u8; 2]; 3]>(c, "Tp176", "0Z☃");
        tp::<Tp177, (A3, E0, u16)>(c, "Tp177", "éX 0bXX_éZg");
        tp::<Tp178, N1>(c, "Tp178", "f1fZ-Z ./Y");
        tp::<Tp179, (A3, E0, u16)>(c, "Tp179", "1ddZXb/");
        tp::<Tp180, N0>(c, "Tp180", "f-eaé1");
        tp::<Tp181, B0>(c, "Tp181", "ac9Z");
        tp::<Tp182, B0>(c, "Tp182", "_.9Xa/.");
        tp::<Tp183, N0>(c, "Tp183", " Z/1fYccdeY9YZeXgY01bédbY--éé YY-c☃ZZ 0Z egd d☃Y.cg0é/bb0é YZa.-☃e 1YYc/☃fYb☃éZc.9-X./éd /.-X0.g.XYd-☃. _gg_YY-☃aY b1YYX1afg9_ Y ☃");
        tp::<Tp184, E0>(c, "Tp184", "fe☃é0a_YZf-");
        tp::<Tp185, A6>(c, "Tp185", "cd9gZ");
        tp::<Tp186, U0>(c, "Tp186", "e_.c");
        tp::<Tp187, f32>(c, "Tp187", "a1béZ_-cZfe.Y 1afY/9Y0eZdc☃1fdcXZb9Xb.aaa 9c.Zaé9.YZZ.g9c0X 9eXaY 0d/ . f09XXZc-e1gfbZedca9c109X_f10- 9/☃- _ f90☃ .aYbfbXXg. ☃1Yag");
        tp::<Tp188, A0>(c, "Tp188", ".-/bdfd");
        tp::<Tp189, B1>(c, "Tp189", ".aZY");
        tp::<Tp190, A6>(c, "Tp190", "10c");
        tp::<Tp191, [[u8; 2]; 3]>(c, "Tp191", "f g9 ff9-/☃/.1dc9");
        tp::<Tp192, u8>(c, "Tp192", "☃. f1.dXd9");
        tp::<Tp193, U0>(c, "Tp193", "-0e");
        tp::<Tp194, bool>(c, "Tp194", "Y.9Ybd9be");
        tp::<Tp195, E0>(c, "Tp195", "é☃/Y-");
        tp::<Tp196, B0>(c, "Tp196", "dc");
        tp::<Tp197, A0>(c, "Tp197", "gbfcX.");
        tp::<Tp198, (A3, E0, u16)>(c, "Tp198", "-0 _1df");
        tp::<Tp199, B0>(c, "Tp199", "/efceggd09 Y");
        tp::<Tp200, A1>(c, "Tp200", "a");
        tp::<Tp201, i64>(c, "Tp201", "b1Z");
        tp::<Tp202, A1>(c, "Tp202", "YgX.__/");
        tp::<Tp203, A8>(c, "Tp203", "1dZ1");
        tp::<Tp204, T0>(c, "Tp204", "é-01 ffede");
        tp::<Tp205, u64>(c, "Tp205", "d-b09");
        tp::<Tp206, (u8, A2)>(c, "Tp206", "é_1/g☃☃☃e_g_//bZ_Xg9eeg_Yda Zbcé☃1☃ébéf-./ag9Yf-.-1☃1ca.9 e/ZdXecZc9 0eYXZb1a_-f1bfY_bébd.-gXcd1b/a☃1a//b -éfagcd dbefdbg/e.☃☃_/-Y");
        tp::<Tp207, (u8, A2)>(c, "Tp207", "11dgbb.dad");
        tp::<Tp208, A1>(c, "Tp208", "ddZ");
        tp::<Tp209, A3>(c, "Tp209", "X1 eYa☃0☃g1");
        tp::<Tp210, T0>(c, "Tp210", "fé0é_aZd f-");
        tp::<Tp211, A1>(c, "Tp211", "Z_Yéa/d1fgdf/_edf");
        tp::<Tp212, U0>(c, "Tp212", "YYY0");
        tp::<Tp213, [u8; 4]>(c, "Tp213", "-fde/_fcgb");
        tp::<Tp214, f32>(c, "Tp214", "fdd0fY");
        tp::<Tp215, T0>(c, "Tp215", "0dc ce");
        tp::<Tp216, A2>(c, "Tp216", "_e0dbcYfd/Ya/édZéf 0b0.Y Yf01dZé/d90éf10");
        tp::<Tp217, A3>(c, "Tp217", "ZaXZ abgdea☃");
        tp::<Tp218, N0>(c, "Tp218", "aéYb-/☃c1ZXf-/Y/é");
        tp::<Tp219, A3>(c, "Tp219", "cZY Z☃ga");
        tp::<Tp220, [[u8; 2]; 3]>(c, "Tp220", "f /Xef0a_-☃X1_ 01eYY/bg_YZY..Xf1b9ggf0é☃");
        tp::<Tp221, E1>(c, "Tp221", "a1XeY");
        tp::<Tp222, T0>(c, "Tp222", "XXf");
        tp::<Tp223, String>(c, "Tp223", "cgZ/1☃☃_ ☃");
        tp::<Tp224, u8>(c, "Tp224", "ea-0Y");
        tp::<Tp225, B1>(c, "Tp225", "b-bZY _bf");
        tp::<Tp226, String>(c, "Tp226", "11Y ☃");
        tp::<Tp227, [u8; 4]>(c, "Tp227", "-_d-ga0X");
        tp::<Tp228, f32>(c, "Tp228", "1Y-.0");
        tp::<Tp229, [u8; 4]>(c, "Tp229", "☃91gb");
        tp::<Tp230, E1>(c, "Tp230", "/ééZ-");
        tp::<Tp231, A5>(c, "Tp231", "b_9eé_Ydd");
        tp::<Tp232, A6>(c, "Tp232", "0/dad-0af/");
        tp::<Tp233, bool>(c, "Tp233", "10_X/Xf/1cg0 Z--_éc ébZ1☃eage 9// _9g_Zc");
        tp::<Tp234, String>(c, "Tp234", "e9fd/90é☃Zd9☃dfcebb/éd/_cXZd.é0Xd.bd e0eb ae9ff gfZ0ZeeYbg .YZ.. cbg9_1XXé.b1ZééeX1cY0Y1eg☃☃éYge9Y/19 _g0dX11bf1dg 9de/e.Yd_0 g gg");
        tp::<Tp235, f32>(c, "Tp235", "ZXY9Z00a0écXXd b.dbf☃0é_ bYe9egb9Xf_.cYg1/-☃e/e_-9dZZdbea aX1cg/-☃.a_a_é-éXf/1Xfa001..f9f9X9.dc11dYXe-Y-g0_ ZYb1ffbYbdbé19.aYZ_9. ");
        tp::<Tp236, ()>(c, "Tp236", "_/a_Y.c0c");
        tp::<Tp237, A6>(c, "Tp237", "0/c ");
        tp::<Tp238, B1>(c, "Tp238", "1Y/-ée☃☃☃X/eé-faX.ad.Zbc_d0c-Z_-0Y1-ceé ");
        tp::<Tp239, A6>(c, "Tp239", "9dZ1/9cbg.Y_");
        tp::<Tp240, A1>(c, "Tp240", "eZ0-gbb0");
        tp::<Tp241, B1>(c, "Tp241", "0_fg");
        tp::<Tp242, [[u8; 2]; 3]>(c, "Tp242", "dZ9gg9");
        tp::<Tp243, A6>(c, "Tp243", " b");
        tp::<Tp244, A1>(c, "Tp244", " -ggXe9g-Y☃");
        tp::<Tp245, U0>(c, "Tp245", "ffXf9Zdd9. fZb-bage0☃X-.éf ☃X9beéY9débY9bXb1-YZ/9XZbe.bYéb9X☃/e-1ce_._1Zd9c☃g.e9/é/bY//Y-/a9 ad☃/e- aY/1g.YYYaaX9d./YcZY_-0☃ggf☃9g");
        tp::<Tp246, N0>(c, "Tp246", "f f☃0 1éZa -/Zébg");
        tp::<Tp247, A8>(c, "Tp247", "/éZ_f-f/b-egdéXcY1-19/0ég__cb009_Xa9_ b Y 11X./--/-Y.ff/gee/☃Xaé_1☃XYa._c11feb☃ é_f.1-/☃_cZéc☃ ☃-1g-c☃  1Z-cd.-aeZabb1/-éaéZ- df0d");
        tp::<Tp248, (u8, A2)>(c, "Tp248", "a-0");
        tp::<Tp249, (u8, A2)>(c, "Tp249", "a/gcZda☃0_☃");
        tp::<Tp250, A3>(c, "Tp250", "é1");
        tp::<Tp251, T0>(c, "Tp251", "fba.9cd- febZX- -b1Yé/Z9.9e9_ccc ZdXfcée");
        tp::<Tp252, A0>(c, "Tp252", "b");
        tp::<Tp253, B0>(c, "Tp253", "/g");
        tp::<Tp254, A2>(c, "Tp254", "effcé");
        tp::<Tp255, [A1; 2]>(c, "Tp255", "f_.gf0bg9é/X/9d_/Z9-eg 10.Zd-_Za0bY. Xge");
        tp::<Tp256, u64>(c, "Tp256", "eé☃é1");
        tp::<Tp257, N1>(c, "Tp257", "g0fgd");
        tp::<Tp258, u32>(c, "Tp258", "g9/f1");
        tp::<Tp259, B0>(c, "Tp259", "☃g0éb/b0☃d  a/1X☃Z é☃eXé19fab9Xac0daéZ d");
        tp::<Tp260, (u8, A2)>(c, "Tp260", "fc.");
        tp::<Tp261, u32>(c, "Tp261", "ebé/_99.d☃_cb.g1é");
        tp::<Tp262, u64>(c, "Tp262", "ébae.1Yd9_1");
        tp::<Tp263, [u8; 4]>(c, "Tp263", "YY☃b1f.d1");
        tp::<Tp264, A6>(c, "Tp264", "-Xee.écX9X.X/YXc/");
        tp::<Tp265, U0>(c, "Tp265", "a☃é0g.éf_9");
        tp::<Tp266, char>(c, "Tp266", "b-gcZe 9 X.-a X☃Y");
        tp::<Tp267, i64>(c, "Tp267", "d9a/0");
        tp::<Tp268, A5>(c, "Tp268", "-Z91.afg");
        tp::<Tp269, B0>(c, "Tp269", "cXdb/X.aZdX-Xc-c☃");
        tp_list(c, "t37", &LIST, TopicDirection::ToServer, false, &[("_Y-a_X0f", Key::for_path::<A2>("_Y-a_X0f")), ("Z_☃☃ecgacXe/.1gY-9cé Z agZYf--. Zg00 g1☃/9Zc-b-_ aXéc_./☃-d0Xaf0f 9ec éfX_Y/gd9g.g91c.é.f.9béfdbccéZ cd 19/d.g0-edZ  / cg☃b1-/0Yf_", Key::for_path::<String>("Z_☃☃ecgacXe/.1gY-9cé Z agZYf--. Zg00 g1☃/9Zc-b-_ aXéc_./☃-d0Xaf0f 9ec éfX_Y/gd9g.g91c.é.f.9béfdbccéZ cd 19/d.g0-edZ  / cg☃b1-/0Yf_")), ("é_c/9fé-cé .", Key::for_path::<bool>("é_c/9fé-cé .")), ("0☃Zc09 --gc YedX9", Key::for_path::<B1>("0☃Zc09 --gc YedX9")), ("b /bg- ", Key::for_path::<(A3, E0, u16)>("b /bg- ")), ("ég./X", Key::for_path::<B0>("ég./X")), ("bécXf_", Key::for_path::<B0>("bécXf_")), ("0.é", Key::for_path::<u64>("0.é")), ("bYc1", Key::for_path::<i8>("bYc1")), ("é☃Y9e", Key::for_path::<A8>("é☃Y9e")), ("dZaY1fY.bgeXY-cY1Za9a-  e-☃XcdZg 1-/1e9g._f☃☃/ec001__fbéf1fZ YXé1.☃f1.b_9éé.a-/YbZ1edYeeYXg_adé111dcXdZ-eé.é/gX9Ye09._☃c-/gg9Y.fdZ", Key::for_path::<[A1; 2]>("dZaY1fY.bgeXY-cY1Za9a-  e-☃XcdZg 1-/1e9g._f☃☃/ec001__fbéf1fZ YXé1.☃f1.b_9éé.a-/YbZ1edYeeYXg_adé111dcXdZ-eé.é/gX9Ye09._☃c-/gg9Y.fdZ")), ("/eg", Key::for_path::<U0>("/eg")), ("", Key::for_path::<B0>("")), ("é_fe☃0fZb", Key::for_path::<char>("é_fe☃0fZb")), ("9ag.f.g", Key::for_path::<A0>("9ag.f.g")), ("-9é", Key::for_path::<u32>("-9é")), ("aZ e.1c-", Key::for_path::<u8>("aZ e.1c-")), ("1Z1f 1f .", Key::for_path::<E1>("1Z1f 1f .")), ("9/☃ 9☃Z9", Key::for_path::<B0>("9/☃ 9☃Z9")), ("0XYY fféfb", Key::for_path::<A7>("0XYY fféfb")), ("/dde_-cac", Key::for_path::<[[u8; 2]; 3]>("/dde_-cac")), ("f9//f", Key::for_path::<B0>("f9//f")), ("bcZe.", Key::for_path::<String>("bcZe.")), ("bX_0.é_bZX", Key::for_path::<u64>("bX_0.é_bZX")), ("_é_", Key::for_path::<A0>("_é_")), ("bf1__0ZXg☃ab9ede0_/.☃ZX Z/éZ_XféYb0éX.Zca9_c1é_0☃/aa0aXfeeag_-/9☃acéZééXfXeZ-é-é.Y9. Ze .☃f1e9fg//0aX.9égdcZb1_0Z/☃e/ ._b☃101d 9fb", Key::for_path::<[A1; 2]>("bf1__0ZXg☃ab9ede0_/.☃ZX Z/éZ_XféYb0éX.Zca9_c1é_0☃/aa0aXfeeag_-/9☃acéZééXfXeZ-é-é.Y9. Ze .☃f1e9fg//0aX.9égdcZb1_0Z/☃e/ ._b☃101d 9fb")), ("a gcYZcYf ☃Y", Key::for_path::<u32>("a gcYZcYf ☃Y")), ("c", Key::for_path::<B1>("c")), ("90911e", Key::for_path::<B0>("90911e")), ("-.Z/X_._g-/_", Key::for_path::<A3>("-.Z/X_._g-/_")), ("_g", Key::for_path::<B1>("_g")), ("1 dYb/0a-a", Key::for_path::<T0>("1 dYb/0a-a")), ("9", Key::for_path::<[A1; 2]>("9")), ("dZ__-baX☃", Key::for_path::<u32>("dZ__-baX☃")), (".-XbX.☃écb_ ", Key::for_path::<A0>(".-XbX.☃écb_ ")), ("Yé", Key::for_path::<u32>("Yé")), ("0 ZéX X_/", Key::for_path::<N1>("0 ZéX X_/")), ("_ddY091eX☃☃dYb-X/b-/e0aYcfX1/☃g_b_b éabg", Key::for_path::<i8>("_ddY091eX☃☃dYb-X/b-/e0aYcfX1/☃g_b_b éabg")), ("adéZé", Key::for_path::<A6>("adéZé")), ("//eéca/00gcf", Key::for_path::<A3>("//eéca/00gcf")), ("☃-b_c☃é☃gg", Key::for_path::<A6>("☃-b_c☃é☃gg")), (".eZf", Key::for_path::<bool>(".eZf")), ("Yg", Key::for_path::<N0>("Yg")), ("X☃00X-gefYXZ", Key::for_path::<B0>("X☃00X-gefYXZ")), ("Y0☃9  bZ_9Zebgdff", Key::for_path::<A6>("Y0☃9  bZ_9Zebgdff")), ("bffY☃Y", Key::for_path::<()>("bffY☃Y")), ("1a_", Key::for_path::<B1>("1a_")), ("é11a01df☃", Key::for_path::<E0>("é11a01df☃")), ("d☃cY1é", Key::for_path::<U0>("d☃cY1é")), ("_91", Key::for_path::<[u8; 4]>("_91")), ("0Zg/9d-1éa", Key::for_path::<A3>("0Zg/9d-1éa")), ("/b", Key::for_path::<B0>("/b")), ("g☃fc", Key::for_path::<u16>("g☃fc")), ("11gbaZ-XééX/1-99 /1fYcd1c-☃1c.-Z.bdc910Z/Yf90dZ-Y_.-/Y/f/9f_dadcé Y -.agéfbbd☃YXg-d1Y0e.aZ_.X d cgc_fbfYeaXeZc___Yf11g./9 gf- ☃☃- ", Key::for_path::<A5>("11gbaZ-XééX/1-99 /1fYcd1c-☃1c.-Z.bdc910Z/Yf90dZ-Y_.-/Y/f/9f_dadcé Y -.agéfbbd☃YXg-d1Y0e.aZ_.X d cgc_fbfYeaXeZc___Yf11g./9 gf- ☃☃- ")), ("é☃", Key::for_path::<A3>("é☃")), ("b_gé.a☃", Key::for_path::<A8>("b_gé.a☃")), ("fX☃/./", Key::for_path::<i64>("fX☃/./")), ("ad10/", Key::for_path::<A5>("ad10/")), ("Z-adX_éd1ef/e/0fZ☃gaYed_éfZ-f-d-é☃fZ.- 0ZcY.éfécZXfXedé/99fcZ.Y☃/beé0f9g1.géa1.cg9e-g 9dééé☃9-X0X☃b d/-0/1ccYYéZ☃_☃9.éeY bbed e0aY", Key::for_path::<u8>("Z-adX_éd1ef/e/0fZ☃gaYed_éfZ-f-d-é☃fZ.- 0ZcY.éfécZXfXedé/99fcZ.Y☃/beé0f9g1.géa1.cg9e-g 9dééé☃9-X0X☃b d/-0/1ccYYéZ☃_☃9.éeY bbed e0aY")), (" 1ddc /.aZ_.eb.-0-.e-1/ ☃☃_bYd1éZ ba.d☃aZYa-X0fYgaeYga e91e.__g fbc._b-☃eg-cb9/0Xecff1Z9éaXXfZda _edaZ☃é-/eadbcX_é-/Xa0X/1dc1/Zf1-", Key::for_path::<A7>(" 1ddc /.aZ_.eb.-0-.e-1/ ☃☃_bYd1éZ ba.d☃aZYa-X0fYgaeYga e91e.__g fbc._b-☃eg-cb9/0Xecff1Z9éaXXfZda _edaZ☃é-/eadbcX_é-/Xa0X/1dc1/Zf1-")), ("0é", Key::for_path::<u8>("0é")), ("_", Key::for_path::<A0>("_")), ("0-9ééag", Key::for_path::<u32>("0-9ééag")), ("9gYge☃☃d", Key::for_path::<B0>("9gYge☃☃d")), ("/0-Zf g", Key::for_path::<i64>("/0-Zf g")), ("bda☃b", Key::for_path::<String>("bda☃b")), ("cabg", Key::for_path::<A2>("cabg")), ("009/./ fgg./cée9.", Key::for_path::<i64>("009/./ fgg./cée9.")), ("/YXY /XeY☃f-é-éYYY_//_1cZf /be☃_dfbd be ", Key::for_path::<(u8, A2)>("/YXY /XeY☃f-é-éYYY_//_1cZf /be☃_dfbd be ")), ("99 cc", Key::for_path::<E0>("99 cc")), (".df☃bggY00d☃", Key::for_path::<u16>(".df☃bggY00d☃")), ("fg1.f- b-", Key::for_path::<E0>("fg1.f- b-")), ("1_Ze110", Key::for_path::<B0>("1_Ze110")), ("c.", Key::for_path::<bool>("c.")), ("g0.", Key::for_path::<A4>("g0.")), ("/", Key::for_path::<u8>("/")), ("9b", Key::for_path::<B0>("9b")), ("gYg1éc-☃é-1aZaY/Xe☃Z-bd9bYX/c/.1bg☃1X9--ZéeX9gXaa 0gédY0_aXZe9cgf91f.19☃1gaaX☃ab9cd-bZ1c/9gg/ Yd9c_ .gfZébeZc.Ya._☃X_90daédag9/001", Key::for_path::<char>("gYg1éc-☃é-1aZaY/Xe☃Z-bd9bYX/c/.1bg☃1X9--ZéeX9gXaa 0gédY0_aXZe9cgf91f.19☃1gaaX☃ab9cd-bZ1c/9gg/ Yd9c_ .gfZébeZc.Ya._☃X_90daédag9/001")), ("_c9dg☃☃☃0Z_a", Key::for_path::<E0>("_c9dg☃☃☃0Z_a")), ("/a/édb1☃/- 91. cYg1ecd00Yg Z éZ.-a.bgbaa", Key::for_path::<A6>("/a/édb1☃/- 91. cYg1ecd00Yg Z éZ.-a.bgbaa")), ("gYdd", Key::for_path::<(A3, E0, u16)>("gYdd")), ("fg déa", Key::for_path::<bool>("fg déa")), ("0Xdéb", Key::for_path::<[u8; 4]>("0Xdéb")), ("Y1é", Key::for_path::<B1>("Y1é")), ("b0", Key::for_path::<A6>("b0")), ("☃Y-éZ", Key::for_path::<U0>("☃Y-éZ")), ("d9ca", Key::for_path::<A8>("d9ca")), ("/9g  /d", Key::for_path::<A5>("/9g  /d")), ("9.Yb9Xea_XXgZ_Z/.", Key::for_path::<u64>("9.Yb9Xea_XXgZ_Z/.")), ("191 YaXdX.0bYg.9ZYg-d.0_/9 a_éZZéfacfZed", Key::for_path::<N1>("191 YaXdX.0bYg.9ZYg-d.0_/9 a_éZZéfacfZed")), ("Z", Key::for_path::<String>("Z")), ("eZX/", Key::for_path::<A3>("eZX/")), ("Xd9dgdé91-☃eg Xc/.d ae/ff1b_Y/_Xd.Xefa9a☃_X9é0/g_/☃a.fY//aa_é0éb.☃ef/0-é gc-Z-bc/g-f/ é_Z.Yd-ééZcg/ad_Y0/XfZ-Zb_0f 0g/Z gcfééfX bb", Key::for_path::<u64>("Xd9dgdé91-☃eg Xc/.d ae/ff1b_Y/_Xd.Xefa9a☃_X9é0/g_/☃a.fY//aa_é0éb.☃ef/0-é gc-Z-bc/g-f/ é_Z.Yd-ééZcg/ad_Y0/XfZ-Zb_0f 0g/Z gcfééfX bb")), ("/fZXa 0f1/fdge01Y", Key::for_path::<A5>("/fZXa 0f1/fdge01Y")), ("c☃aZaX/éZgé-cYYdZ", Key::for_path::<A6>("c☃aZaX/éZgé-cYYdZ")), ("e/-cab☃Y", Key::for_path::<E0>("e/-cab☃Y")), ("f-_.-Z☃ébc.☃Xa dé", Key::for_path::<A7>("f-_.-Z☃ébc.☃Xa dé")), ("Yf_c.f", Key::for_path::<()>("Yf_c.f")), ("☃Y-dg.9.ddd.b☃gXX ca//bY/0.c .X/Zé☃geYXZ", Key::for_path::<(u8, A2)>("☃Y-dg.9.ddd.b☃gXX ca//bY/0.c .X/Zé☃geYXZ")), ("eeé", Key::for_path::<i64>("eeé")), ("ce☃Xb éX", Key::for_path::<A3>("ce☃Xb éX")), ("a _-b", Key::for_path::<u16>("a _-b")), ("- afcdfXa", Key::for_path::<B1>("- afcdfXa")), ("eX-Y-", Key::for_path::<A5>("eX-Y-")), (".", Key::for_path::<i8>(".")), ("afb1Z_ée1.", Key::for_path::<(u8, A2)>("afb1Z_ée1.")), ("Yéb1Z9gb9☃f1.X1.☃._☃fb1Z9e ga☃_e_b_fZa d", Key::for_path::<f32>("Yéb1Z9gb9☃f1.X1.☃._☃fb1Z9e ga☃_e_b_fZa d")), ("f9ec", Key::for_path::<B1>("f9ec")), ("b0X1/YX1XbY1☃e_a1/g/é cXa _ZbXffZ☃Z1f0YZ", Key::for_path::<A7>("b0X1/YX1XbY1☃e_a1/g/é cXa _ZbXffZ☃Z1f0YZ")), ("☃☃--.", Key::for_path::<B0>("☃☃--.")), ("Z99Xf/e-éeZeX-☃cf", Key::for_path::<T0>("Z99Xf/e-éeZeX-☃cf")), ("a_.d/0c1", Key::for_path::<B0>("a_.d/0c1")), ("Zéb9Z", Key::for_path::<u64>("Zéb9Z")), ("/g1-e1aceaaXcbXYe.e☃e__e 0f-_Z☃bc-☃fYa.ZYdZdé0aZcgef-.9Ya☃ 100eacf_ cfd- be0béaéX0_YZcff dbZ1 gY-0_.add.☃ZXY_0gXZefb a.ae_9_g_11-0", Key::for_path::<B0>("/g1-e1aceaaXcbXYe.e☃e__e 0f-_Z☃bc-☃fYa.ZYdZdé0aZcgef-.9Ya☃ 100eacf_ cfd- be0béaéX0_YZcff dbZ1 gY-0_.add.☃ZXY_0gXZefb a.ae_9_g_11-0")), ("/fc/a ", Key::for_path::<[[u8; 2]; 3]>("/fc/a ")), ("dX0", Key::for_path::<B1>("dX0")), ("cfgdc1X.", Key::for_path::<()>("cfgdc1X.")), ("1eY☃Y1d", Key::for_path::<A4>("1eY☃Y1d")), ("0/☃☃_dY1", Key::for_path::<bool>("0/☃☃_dY1")), ("Y0a", Key::for_path::<String>("Y0a")), ("_Ze_/Y1Xe e", Key::for_path::<()>("_Ze_/Y1Xe e")), ("1", Key::for_path::<A0>("1")), ("/0Z0Z/Z -f_", Key::for_path::<()>("/0Z0Z/Z -f_")), ("Z☃.b", Key::for_path::<N1>("Z☃.b")), ("f1bc9-0.d", Key::for_path::<A8>("f1bc9-0.d")), ("e__/☃cbé", Key::for_path::<A4>("e__/☃cbé")), ("☃acXe9_/d/bc _éX9Xeb_-fc☃ .0caa-Z  cd/a1Y/1d0f0b-_.aZ90 _ dY0-☃dXfbYXdbXY-9eee _./ge./.f9agéb-91☃9-b☃f/bf./0eafgZYZ--9b9Y cb☃.a.☃Y", Key::for_path::<bool>("☃acXe9_/d/bc _éX9Xeb_-fc☃ .0caa-Z  cd/a1Y/1d0f0b-_.aZ90 _ dY0-☃dXfbYXdbXY-9eee _./ge./.f9agéb-91☃9-b☃f/bf./0eafgZYZ--9b9Y cb☃.a.☃Y")), ("X.ee1f f9☃b0dc9bb", Key::for_path::<(u8, A2)>("X.ee1f f9☃b0dc9bb")), ("Z0f.Z_aé9g", Key::for_path::<T0>("Z0f.Z_aé9g")), ("-g1", Key::for_path::<E1>("-g1")), ("☃XbeébaZf", Key::for_path::<A1>("☃XbeébaZf")), (".ab_XY", Key::for_path::<[u8; 4]>(".ab_XY")), ("1.0afe-0", Key::for_path::<U0>("1.0afe-0")), ("XZYb.ecYZ☃-", Key::for_path::<A6>("XZYb.ecYZ☃-")), ("0da-", Key::for_path::<u16>("0da-")), ("1b", Key::for_path::<B1>("1b")), ("_ b-a/aX", Key::for_path::<A1>("_ b-a/aX")), ("cd10.", Key::for_path::<u16>("cd10.")), ("f ", Key::for_path::<B0>("f ")), ("a0Y1cYfXb", Key::for_path::<(u8, A2)>("a0Y1cYfXb")), ("cc91f", Key::for_path::<A1>("cc91f")), ("fY☃ZcX 91_", Key::for_path::<i8>("fY☃ZcX 91_")), ("/gg", Key::for_path::<E0>("/gg")), ("ggcgX", Key::for_path::<[u8; 4]>("ggcgX")), (" ", Key::for_path::<String>(" ")), ("é  é☃Z_Z", Key::for_path::<N1>("é  é☃Z_Z")), ("f", Key::for_path::<u16>("f")), ("cbb1", Key::for_path::<A5>("cbb1")), ("_cdbgc/", Key::for_path::<char>("_cdbgc/")), ("Yfb _9", Key::for_path::<[[u8; 2]; 3]>("Yfb _9")), ("X", Key::for_path::<(u8, A2)>("X")), ("X g  1", Key::for_path::<E0>("X g  1")), ("_a.gZ", Key::for_path::<String>("_a.gZ")), ("é9.a_☃ZYad", Key::for_path::<B0>("é9.a_☃ZYad")), ("☃/☃Yf_é -", Key::for_path::<E0>("☃/☃Yf_é -")), ("-9", Key::for_path::<B0>("-9")), ("-eé1", Key::for_path::<U0>("-eé1")), ("1c__a-☃Xa", Key::for_path::<B1>("1c__a-☃Xa")), ("-eZdfe", Key::for_path::<N0>("-eZdfe")), ("-", Key::for_path::<E0>("-")), ("ge", Key::for_path::<B1>("ge")), ("e  Xe0d☃f-", Key::for_path::<E0>("e  Xe0d☃f-")), ("1Z ", Key::for_path::<f32>("1Z ")), ("d0b9", Key::for_path::<u8>("d0b9")), ("d", Key::for_path::<E0>("d")), ("09 _Xd99☃ca.-1f9a/e9Y9eb.-_0_c_1é e-. 9e", Key::for_path::<u64>("09 _Xd99☃ca.-1f9a/e9Y9eb.-_0_c_1é e-. 9e")), ("99_Z0--.a9_", Key::for_path::<[u8; 4]>("99_Z0--.a9_")), ("_gbab-d", Key::for_path::<B1>("_gbab-d")), ("é__☃.__9ZY", Key::for_path::<E1>("é__☃.__9ZY")), ("a☃e/9cdZ☃9gé", Key::for_path::<A6>("a☃e/9cdZ☃9gé")), ("Ye_0b", Key::for_path::<T0>("Ye_0b")), ("Xe.d", Key::for_path::<N1>("Xe.d")), ("Zb☃1X", Key::for_path::<(A3, E0, u16)>("Zb☃1X")), ("1cZ_9Ze/", Key::for_path::<E1>("1cZ_9Ze/")), ("é", Key::for_path::<A8>("é")), ("b.é", Key::for_path::<A4>("b.é")), ("0Z☃", Key::for_path::<[[u8; 2]; 3]>("0Z☃")), ("éX 0bXX_éZg", Key::for_path::<(A3, E0, u16)>("éX 0bXX_éZg")), ("f1fZ-Z ./Y", Key::for_path::<N1>("f1fZ-Z ./Y")), ("1ddZXb/", Key::for_path::<(A3, E0, u16)>("1ddZXb/")), ("f-eaé1", Key::for_path::<N0>("f-eaé1")), ("ac9Z", Key::for_path::<B0>("ac9Z")), ("_.9Xa/.", Key::for_path::<B0>("_.9Xa/.")), (" Z/1fYccdeY9YZeXgY01bédbY--éé YY-c☃ZZ 0Z egd d☃Y.cg0é/bb0é YZa.-☃e 1YYc/☃fYb☃éZc.9-X./éd /.-X0.g.XYd-☃. _gg_YY-☃aY b1YYX1afg9_ Y ☃", Key::for_path::<N0>(" Z/1fYccdeY9YZeXgY01bédbY--éé YY-c☃ZZ 0Z egd d☃Y.cg0é/bb0é YZa.-☃e 1YYc/☃fYb☃éZc.9-X./éd /.-X0.g.XYd-☃. _gg_YY-☃aY b1YYX1afg9_ Y ☃")), ("fe☃é0a_YZf-", Key::for_path::<E0>("fe☃é0a_YZf-")), ("cd9gZ", Key::for_path::<A6>("cd9gZ")), ("e_.c", Key::for_path::<U0>("e_.c")), ("a1béZ_-cZfe.Y 1afY/9Y0eZdc☃1fdcXZb9Xb.aaa 9c.Zaé9.YZZ.g9c0X 9eXaY 0d/ . f09XXZc-e1gfbZedca9c109X_f10- 9/☃- _ f90☃ .aYbfbXXg. ☃1Yag", Key::for_path::<f32>("a1béZ_-cZfe.Y 1afY/9Y0eZdc☃1fdcXZb9Xb.aaa 9c.Zaé9.YZZ.g9c0X 9eXaY 0d/ . f09XXZc-e1gfbZedca9c109X_f10- 9/☃- _ f90☃ .aYbfbXXg. ☃1Yag")), (".-/bdfd", Key::for_path::<A0>(".-/bdfd")), (".aZY", Key::for_path::<B1>(".aZY")), ("10c", Key::for_path::<A6>("10c")), ("f g9 ff9-/☃/.1dc9", Key::for_path::<[[u8; 2]; 3]>("f g9 ff9-/☃/.1dc9")), ("☃. f1.dXd9", Key::for_path::<u8>("☃. f1.dXd9")), ("-0e", Key::for_path::<U0>("-0e")), ("Y.9Ybd9be", Key::for_path::<bool>("Y.9Ybd9be")), ("é☃/Y-", Key::for_path::<E0>("é☃/Y-")), ("dc", Key::for_path::<B0>("dc")), ("gbfcX.", Key::for_path::<A0>("gbfcX.")), ("-0 _1df", Key::for_path::<(A3, E0, u16)>("-0 _1df")), ("/efceggd09 Y", Key::for_path::<B0>("/efceggd09 Y")), ("a", Key::for_path::<A1>("a")), ("b1Z", Key::for_path::<i64>("b1Z")), ("YgX.__/", Key::for_path::<A1>("YgX.__/")), ("1dZ1", Key::for_path::<A8>("1dZ1")), ("é-01 ffede", Key::for_path::<T0>("é-01 ffede")), ("d-b09", Key::for_path::<u64>("d-b09")), ("é_1/g☃☃☃e_g_//bZ_Xg9eeg_Yda Zbcé☃1☃ébéf-./ag9Yf-.-1☃1ca.9 e/ZdXecZc9 0eYXZb1a_-f1bfY_bébd.-gXcd1b/a☃1a//b -éfagcd dbefdbg/e.☃☃_/-Y", Key::for_path::<(u8, A2)>("é_1/g☃☃☃e_g_//bZ_Xg9eeg_Yda Zbcé☃1☃ébéf-./ag9Yf-.-1☃1ca.9 e/ZdXecZc9 0eYXZb1a_-f1bfY_bébd.-gXcd1b/a☃1a//b -éfagcd dbefdbg/e.☃☃_/-Y")), ("11dgbb.dad", Key::for_path::<(u8, A2)>("11dgbb.dad")), ("ddZ", Key::for_path::<A1>("ddZ")), ("X1 eYa☃0☃g1", Key::for_path::<A3>("X1 eYa☃0☃g1")), ("fé0é_aZd f-", Key::for_path::<T0>("fé0é_aZd f-")), ("Z_Yéa/d1fgdf/_edf", Key::for_path::<A1>("Z_Yéa/d1fgdf/_edf")), ("YYY0", Key::for_path::<U0>("YYY0")), ("-fde/_fcgb", Key::for_path::<[u8; 4]>("-fde/_fcgb")), ("fdd0fY", Key::for_path::<f32>("fdd0fY")), ("0dc ce", Key::for_path::<T0>("0dc ce")), ("_e0dbcYfd/Ya/édZéf 0b0.Y Yf01dZé/d90éf10", Key::for_path::<A2>("_e0dbcYfd/Ya/édZéf 0b0.Y Yf01dZé/d90éf10")), ("ZaXZ abgdea☃", Key::for_path::<A3>("ZaXZ abgdea☃")), ("aéYb-/☃c1ZXf-/Y/é", Key::for_path::<N0>("aéYb-/☃c1ZXf-/Y/é")), ("cZY Z☃ga", Key::for_path::<A3>("cZY Z☃ga")), ("f /Xef0a_-☃X1_ 01eYY/bg_YZY..Xf1b9ggf0é☃", Key::for_path::<[[u8; 2]; 3]>("f /Xef0a_-☃X1_ 01eYY/bg_YZY..Xf1b9ggf0é☃")), ("a1XeY", Key::for_path::<E1>("a1XeY")), ("XXf", Key::for_path::<T0>("XXf")), ("cgZ/1☃☃_ ☃", Key::for_path::<String>("cgZ/1☃☃_ ☃")), ("ea-0Y", Key::for_path::<u8>("ea-0Y")), ("b-bZY _bf", Key::for_path::<B1>("b-bZY _bf")), ("11Y ☃", Key::for_path::<String>("11Y ☃")), ("-_d-ga0X", Key::for_path::<[u8; 4]>("-_d-ga0X")), ("1Y-.0", Key::for_path::<f32>("1Y-.0")), ("☃91gb", Key::for_path::<[u8; 4]>("☃91gb")), ("/ééZ-", Key::for_path::<E1>("/ééZ-")), ("b_9eé_Ydd", Key::for_path::<A5>("b_9eé_Ydd")), ("0/dad-0af/", Key::for_path::<A6>("0/dad-0af/")), ("10_X/Xf/1cg0 Z--_éc ébZ1☃eage 9// _9g_Zc", Key::for_path::<bool>("10_X/Xf/1cg0 Z--_éc ébZ1☃eage 9// _9g_Zc")), ("e9fd/90é☃Zd9☃dfcebb/éd/_cXZd.é0Xd.bd e0eb ae9ff gfZ0ZeeYbg .YZ.. cbg9_1XXé.b1ZééeX1cY0Y1eg☃☃éYge9Y/19 _g0dX11bf1dg 9de/e.Yd_0 g gg", Key::for_path::<String>("e9fd/90é☃Zd9☃dfcebb/éd/_cXZd.é0Xd.bd e0eb ae9ff gfZ0ZeeYbg .YZ.. cbg9_1XXé.b1ZééeX1cY0Y1eg☃☃éYge9Y/19 _g0dX11bf1dg 9de/e.Yd_0 g gg")), ("ZXY9Z00a0écXXd b.dbf☃0é_ bYe9egb9Xf_.cYg1/-☃e/e_-9dZZdbea aX1cg/-☃.a_a_é-éXf/1Xfa001..f9f9X9.dc11dYXe-Y-g0_ ZYb1ffbYbdbé19.aYZ_9. ", Key::for_path::<f32>("ZXY9Z00a0écXXd b.dbf☃0é_ bYe9egb9Xf_.cYg1/-☃e/e_-9dZZdbea aX1cg/-☃.a_a_é-éXf/1Xfa001..f9f9X9.dc11dYXe-Y-g0_ ZYb1ffbYbdbé19.aYZ_9. ")), ("_/a_Y.c0c", Key::for_path::<()>("_/a_Y.c0c")), ("0/c ", Key::for_path::<A6>("0/c ")), ("1Y/-ée☃☃☃X/eé-faX.ad.Zbc_d0c-Z_-0Y1-ceé ", Key::for_path::<B1>("1Y/-ée☃☃☃X/eé-faX.ad.Zbc_d0c-Z_-0Y1-ceé ")), ("9dZ1/9cbg.Y_", Key::for_path::<A6>("9dZ1/9cbg.Y_")), ("eZ0-gbb0", Key::for_path::<A1>("eZ0-gbb0")), ("0_fg", Key::for_path::<B1>("0_fg")), ("dZ9gg9", Key::for_path::<[[u8; 2]; 3]>("dZ9gg9")), (" b", Key::for_path::<A6>(" b")), (" -ggXe9g-Y☃", Key::for_path::<A1>(" -ggXe9g-Y☃")), ("ffXf9Zdd9. fZb-bage0☃X-.éf ☃X9beéY9débY9bXb1-YZ/9XZbe.bYéb9X☃/e-1ce_._1Zd9c☃g.e9/é/bY//Y-/a9 ad☃/e- aY/1g.YYYaaX9d./YcZY_-0☃ggf☃9g", Key::for_path::<U0>("ffXf9Zdd9. fZb-bage0☃X-.éf ☃X9beéY9débY9bXb1-YZ/9XZbe.bYéb9X☃/e-1ce_._1Zd9c☃g.e9/é/bY//Y-/a9 ad☃/e- aY/1g.YYYaaX9d./YcZY_-0☃ggf☃9g")), ("f f☃0 1éZa -/Zébg", Key::for_path::<N0>("f f☃0 1éZa -/Zébg")), ("/éZ_f-f/b-egdéXcY1-19/0ég__cb009_Xa9_ b Y 11X./--/-Y.ff/gee/☃Xaé_1☃XYa._c11feb☃ é_f.1-/☃_cZéc☃ ☃-1g-c☃  1Z-cd.-aeZabb1/-éaéZ- df0d", Key::for_path::<A8>("/éZ_f-f/b-egdéXcY1-19/0ég__cb009_Xa9_ b Y 11X./--/-Y.ff/gee/☃Xaé_1☃XYa._c11feb☃ é_f.1-/☃_cZéc☃ ☃-1g-c☃  1Z-cd.-aeZabb1/-éaéZ- df0d")), ("a-0", Key::for_path::<(u8, A2)>("a-0")), ("a/gcZda☃0_☃", Key::for_path::<(u8, A2)>("a/gcZda☃0_☃")), ("é1", Key::for_path::<A3>("é1")), ("fba.9cd- febZX- -b1Yé/Z9.9e9_ccc ZdXfcée", Key::for_path::<T0>("fba.9cd- febZX- -b1Yé/Z9.9e9_ccc ZdXfcée")), ("b", Key::for_path::<A0>("b")), ("/g", Key::for_path::<B0>("/g")), ("effcé", Key::for_path::<A2>("effcé")), ("f_.gf0bg9é/X/9d_/Z9-eg 10.Zd-_Za0bY. Xge", Key::for_path::<[A1; 2]>("f_.gf0bg9é/X/9d_/Z9-eg 10.Zd-_Za0bY. Xge")), ("eé☃é1", Key::for_path::<u64>("eé☃é1")), ("g0fgd", Key::for_path::<N1>("g0fgd")), ("g9/f1", Key::for_path::<u32>("g9/f1")), ("☃g0éb/b0☃d  a/1X☃Z é☃eXé19fab9Xac0daéZ d", Key::for_path::<B0>("☃g0éb/b0☃d  a/1X☃Z é☃eXé19fab9Xac0daéZ d")), ("fc.", Key::for_path::<(u8, A2)>("fc.")), ("ebé/_99.d☃_cb.g1é", Key::for_path::<u32>("ebé/_99.d☃_cb.g1é")), ("ébae.1Yd9_1", Key::for_path::<u64>("ébae.1Yd9_1")), ("YY☃b1f.d1", Key::for_path::<[u8; 4]>("YY☃b1f.d1")), ("-Xee.écX9X.X/YXc/", Key::for_path::<A6>("-Xee.écX9X.X/YXc/")), ("a☃é0g.éf_9", Key::for_path::<U0>("a☃é0g.éf_9")), ("b-gcZe 9 X.-a X☃Y", Key::for_path::<char>("b-gcZe 9 X.-a X☃Y")), ("d9a/0", Key::for_path::<i64>("d9a/0")), ("-Z91.afg", Key::for_path::<A5>("-Z91.afg")), ("cXdb/X.aZdX-Xc-c☃", Key::for_path::<B0>("cXdb/X.aZdX-Xc-c☃"))], &[<A2 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <char as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <u16 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <u16 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <char as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <u16 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A7 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <String as Schema>::SCHEMA, <() as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <u16 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <u16 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <i8 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <String as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <u16 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <char as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <A4 as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <E0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <(A3, E0, u16) as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <u8 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <String as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <E1 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <bool as Schema>::SCHEMA, <String as Schema>::SCHEMA, <f32 as Schema>::SCHEMA, <() as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <B1 as Schema>::SCHEMA, <[[u8; 2]; 3] as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <A1 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <N0 as Schema>::SCHEMA, <A8 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <A3 as Schema>::SCHEMA, <T0 as Schema>::SCHEMA, <A0 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <A2 as Schema>::SCHEMA, <[A1; 2] as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <N1 as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA, <(u8, A2) as Schema>::SCHEMA, <u32 as Schema>::SCHEMA, <u64 as Schema>::SCHEMA, <[u8; 4] as Schema>::SCHEMA, <A6 as Schema>::SCHEMA, <U0 as Schema>::SCHEMA, <char as Schema>::SCHEMA, <i64 as Schema>::SCHEMA, <A5 as Schema>::SCHEMA, <B0 as Schema>::SCHEMA]);
    }
}
mod s0 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoint!(LongerName0, u64, [A1; 2]);
    endpoint!(WithPath, [A1; 2], u64, "fYbé0.");
    topic!(Topic_name0, [A1; 2]);
    topic!(TWithPath, u64, "fYbé0.");
    pub fn check(c: &mut Ctx) {
        ep::<LongerName0, u64, [A1; 2]>(c, "LongerName0", "LongerName0");
        ep::<WithPath, [A1; 2], u64>(c, "WithPath", "fYbé0.");
        tp::<Topic_name0, [A1; 2]>(c, "Topic_name0", "Topic_name0");
        tp::<TWithPath, u64>(c, "TWithPath", "fYbé0.");
    }
}
mod s1 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoint!(LongerName1, i64, char);
    endpoint!(WithPath, char, i64, "_Ycef");
    topic!(Topic_name1, char);
    topic!(TWithPath, i64, "_Ycef");
    pub fn check(c: &mut Ctx) {
        ep::<LongerName1, i64, char>(c, "LongerName1", "LongerName1");
        ep::<WithPath, char, i64>(c, "WithPath", "_Ycef");
        tp::<Topic_name1, char>(c, "Topic_name1", "Topic_name1");
        tp::<TWithPath, i64>(c, "TWithPath", "_Ycef");
    }
}
mod s2 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoint!(LongerName2, u8, N1);
    endpoint!(WithPath, N1, u8, "/-0");
    topic!(Topic_name2, N1);
    topic!(TWithPath, u8, "/-0");
    pub fn check(c: &mut Ctx) {
        ep::<LongerName2, u8, N1>(c, "LongerName2", "LongerName2");
        ep::<WithPath, N1, u8>(c, "WithPath", "/-0");
        tp::<Topic_name2, N1>(c, "Topic_name2", "Topic_name2");
        tp::<TWithPath, u8>(c, "TWithPath", "/-0");
    }
}
mod s3 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoint!(LongerName3, N0, [u8; 4]);
    endpoint!(WithPath, [u8; 4], N0, ". 0Z.d");
    topic!(Topic_name3, [u8; 4]);
    topic!(TWithPath, N0, ". 0Z.d");
    pub fn check(c: &mut Ctx) {
        ep::<LongerName3, N0, [u8; 4]>(c, "LongerName3", "LongerName3");
        ep::<WithPath, [u8; 4], N0>(c, "WithPath", ". 0Z.d");
        tp::<Topic_name3, [u8; 4]>(c, "Topic_name3", "Topic_name3");
        tp::<TWithPath, N0>(c, "TWithPath", ". 0Z.d");
    }
}
mod s4 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoint!(LongerName4, A1, A7);
    endpoint!(WithPath, A7, A1, "ge ");
    topic!(Topic_name4, A7);
    topic!(TWithPath, A1, "ge ");
    pub fn check(c: &mut Ctx) {
        ep::<LongerName4, A1, A7>(c, "LongerName4", "LongerName4");
        ep::<WithPath, A7, A1>(c, "WithPath", "ge ");
        tp::<Topic_name4, A7>(c, "Topic_name4", "Topic_name4");
        tp::<TWithPath, A1>(c, "TWithPath", "ge ");
    }
}
mod s5 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoint!(LongerName5, N0, (A3, E0, u16));
    endpoint!(WithPath, (A3, E0, u16), N0, "1d/Xa9..c1f.e gbZc1b_g_-XZ-geX0//a-.éb9cbXY100-1a0_0☃ZXgb e.e-_Yb Xf0/bgc☃/Y/ X-fYfY.9-X1fcaYbé/ggb1aZ9-1 9-dédg0bc9_Yg_gé☃é10 ZéZ");
    topic!(Topic_name5, (A3, E0, u16));
    topic!(TWithPath, N0, "1d/Xa9..c1f.e gbZc1b_g_-XZ-geX0//a-.éb9cbXY100-1a0_0☃ZXgb e.e-_Yb Xf0/bgc☃/Y/ X-fYfY.9-X1fcaYbé/ggb1aZ9-1 9-dédg0bc9_Yg_gé☃é10 ZéZ");
    pub fn check(c: &mut Ctx) {
        ep::<LongerName5, N0, (A3, E0, u16)>(c, "LongerName5", "LongerName5");
        ep::<WithPath, (A3, E0, u16), N0>(c, "WithPath", "1d/Xa9..c1f.e gbZc1b_g_-XZ-geX0//a-.éb9cbXY100-1a0_0☃ZXgb e.e-_Yb Xf0/bgc☃/Y/ X-fYfY.9-X1fcaYbé/ggb1aZ9-1 9-dédg0bc9_Yg_gé☃é10 ZéZ");
        tp::<Topic_name5, (A3, E0, u16)>(c, "Topic_name5", "Topic_name5");
        tp::<TWithPath, N0>(c, "TWithPath", "1d/Xa9..c1f.e gbZc1b_g_-XZ-geX0//a-.éb9cbXY100-1a0_0☃ZXgb e.e-_Yb Xf0/bgc☃/Y/ X-fYfY.9-X1fcaYbé/ggb1aZ9-1 9-dédg0bc9_Yg_gé☃é10 ZéZ");
    }
}
mod s6 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoint!(LongerName6, f32, A2);
    endpoint!(WithPath, A2, f32, "a0be");
    topic!(Topic_name6, A2);
    topic!(TWithPath, f32, "a0be");
    pub fn check(c: &mut Ctx) {
        ep::<LongerName6, f32, A2>(c, "LongerName6", "LongerName6");
        ep::<WithPath, A2, f32>(c, "WithPath", "a0be");
        tp::<Topic_name6, A2>(c, "Topic_name6", "Topic_name6");
        tp::<TWithPath, f32>(c, "TWithPath", "a0be");
    }
}
mod s7 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoint!(LongerName7, N1, i64);
    endpoint!(WithPath, i64, N1, "c9Z09ZdY☃-_-d_dbYX09cgéé. Y Ze 1bdgf1a☃d");
    topic!(Topic_name7, i64);
    topic!(TWithPath, N1, "c9Z09ZdY☃-_-d_dbYX09cgéé. Y Ze 1bdgf1a☃d");
    pub fn check(c: &mut Ctx) {
        ep::<LongerName7, N1, i64>(c, "LongerName7", "LongerName7");
        ep::<WithPath, i64, N1>(c, "WithPath", "c9Z09ZdY☃-_-d_dbYX09cgéé. Y Ze 1bdgf1a☃d");
        tp::<Topic_name7, i64>(c, "Topic_name7", "Topic_name7");
        tp::<TWithPath, N1>(c, "TWithPath", "c9Z09ZdY☃-_-d_dbYX09cgéé. Y Ze 1bdgf1a☃d");
    }
}
mod s8 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoint!(LongerName8, (u8, A2), [[u8; 2]; 3]);
    endpoint!(WithPath, [[u8; 2]; 3], (u8, A2), "/fe");
    topic!(Topic_name8, [[u8; 2]; 3]);
    topic!(TWithPath, (u8, A2), "/fe");
    pub fn check(c: &mut Ctx) {
        ep::<LongerName8, (u8, A2), [[u8; 2]; 3]>(c, "LongerName8", "LongerName8");
        ep::<WithPath, [[u8; 2]; 3], (u8, A2)>(c, "WithPath", "/fe");
        tp::<Topic_name8, [[u8; 2]; 3]>(c, "Topic_name8", "Topic_name8");
        tp::<TWithPath, (u8, A2)>(c, "TWithPath", "/fe");
    }
}
mod s9 {
    #![allow(dead_code, unused)]
    use super::*;
    endpoint!(LongerName9, T0, bool);
    endpoint!(WithPath, bool, T0, ".");
    topic!(Topic_name9, bool);
    topic!(TWithPath, T0, ".");
    pub fn check(c: &mut Ctx) {
        ep::<LongerName9, T0, bool>(c, "LongerName9", "LongerName9");
        ep::<WithPath, bool, T0>(c, "WithPath", ".");
        tp::<Topic_name9, bool>(c, "Topic_name9", "Topic_name9");
        tp::<TWithPath, T0>(c, "TWithPath", ".");
    }
}
mod d0 {
    #![allow(dead_code, unused)]
    use super::*;
    use super::e0::LIST as EPL; use super::t2::LIST as TIL; use super::t0::LIST as TOL;
    define_dispatch! {
        app: App; spawn_fn: nsp; tx_impl: RecTx; spawn_impl: NoSpawn; context: Cx;
        endpoints: { list: EPL; | EndpointTy | kind | handler | | ---------- | ---- | ------- | };
        topics_in: { list: TIL; | TopicTy | kind | handler | | ------- | ---- | ------- | };
        topics_out: { list: TOL; };
    }
    pub fn check(c: &mut Ctx) { dev(c, "d0", App::new(Cx, NoSpawn).device_map, &EPL, &TIL, &TOL); }
}
mod d1 {
    #![allow(dead_code, unused)]
    use super::*;
    use super::e7::LIST as EPL; use super::t7::LIST as TIL; use super::t5::LIST as TOL;
    define_dispatch! {
        app: App; spawn_fn: nsp; tx_impl: RecTx; spawn_impl: NoSpawn; context: Cx;
        endpoints: { list: EPL; | EndpointTy | kind | handler | | ---------- | ---- | ------- | };
        topics_in: { list: TIL; | TopicTy | kind | handler | | ------- | ---- | ------- | };
        topics_out: { list: TOL; };
    }
    pub fn check(c: &mut Ctx) { dev(c, "d1", App::new(Cx, NoSpawn).device_map, &EPL, &TIL, &TOL); }
}
mod d2 {
    #![allow(dead_code, unused)]
    use super::*;
    use super::e13::LIST as EPL; use super::t2::LIST as TIL; use super::t13::LIST as TOL;
    define_dispatch! {
        app: App; spawn_fn: nsp; tx_impl: RecTx; spawn_impl: NoSpawn; context: Cx;
        endpoints: { list: EPL; | EndpointTy | kind | handler | | ---------- | ---- | ------- | };
        topics_in: { list: TIL; | TopicTy | kind | handler | | ------- | ---- | ------- | };
        topics_out: { list: TOL; };
    }
    pub fn check(c: &mut Ctx) { dev(c, "d2", App::new(Cx, NoSpawn).device_map, &EPL, &TIL, &TOL); }
}
mod d3 {
    #![allow(dead_code, unused)]
    use super::*;
    use super::e17::LIST as EPL; use super::t15::LIST as TIL; use super::t16::LIST as TOL;
    define_dispatch! {
        app: App; spawn_fn: nsp; tx_impl: RecTx; spawn_impl: NoSpawn; context: Cx;
        endpoints: { list: EPL; | EndpointTy | kind | handler | | ---------- | ---- | ------- | };
        topics_in: { list: TIL; | TopicTy | kind | handler | | ------- | ---- | ------- | };
        topics_out: { list: TOL; };
    }
    pub fn check(c: &mut Ctx) { dev(c, "d3", App::new(Cx, NoSpawn).device_map, &EPL, &TIL, &TOL); }
}
mod d4 {
    #![allow(dead_code, unused)]
    use super::*;
    use super::e33::LIST as EPL; use super::t34::LIST as TIL; use super::t17::LIST as TOL;
    define_dispatch! {
        app: App; spawn_fn: nsp; tx_impl: RecTx; spawn_impl: NoSpawn; context: Cx;
        endpoints: { list: EPL; | EndpointTy | kind | handler | | ---------- | ---- | ------- | };
        topics_in: { list: TIL; | TopicTy | kind | handler | | ------- | ---- | ------- | };
        topics_out: { list: TOL; };
    }
    pub fn check(c: &mut Ctx) { dev(c, "d4", App::new(Cx, NoSpawn).device_map, &EPL, &TIL, &TOL); }
}
mod d5 {
    #![allow(dead_code, unused)]
    use super::*;
    use super::e14::LIST as EPL; use super::t11::LIST as TIL; use super::t9::LIST as TOL;
    define_dispatch! {
        app: App; spawn_fn: nsp; tx_impl: RecTx; spawn_impl: NoSpawn; context: Cx;
        endpoints: { list: EPL; | EndpointTy | kind | handler | | ---------- | ---- | ------- | };
        topics_in: { list: TIL; | TopicTy | kind | handler | | ------- | ---- | ------- | };
        topics_out: { list: TOL; };
    }
    pub fn check(c: &mut Ctx) { dev(c, "d5", App::new(Cx, NoSpawn).device_map, &EPL, &TIL, &TOL); }
}
mod d6 {
    #![allow(dead_code, unused)]
    use super::*;
    use super::e35::LIST as EPL; use super::t35::LIST as TIL; use super::t33::LIST as TOL;
    define_dispatch! {
        app: App; spawn_fn: nsp; tx_impl: RecTx; spawn_impl: NoSpawn; context: Cx;
        endpoints: { list: EPL; | EndpointTy | kind | handler | | ---------- | ---- | ------- | };
        topics_in: { list: TIL; | TopicTy | kind | handler | | ------- | ---- | ------- | };
        topics_out: { list: TOL; };
    }
    pub fn check(c: &mut Ctx) { dev(c, "d6", App::new(Cx, NoSpawn).device_map, &EPL, &TIL, &TOL); }
}
pub fn all(c: &mut Ctx) {
    e0::check(c);
    e1::check(c);
    e2::check(c);
    e3::check(c);
    e4::check(c);
    e5::check(c);
    e6::check(c);
    e7::check(c);
    e8::check(c);
    e9::check(c);
    e10::check(c);
    e11::check(c);
    e12::check(c);
    e13::check(c);
    e14::check(c);
    e15::check(c);
    e16::check(c);
    e17::check(c);
    e18::check(c);
    e19::check(c);
    e20::check(c);
    e21::check(c);
    e22::check(c);
    e23::check(c);
    e24::check(c);
    e25::check(c);
    e26::check(c);
    e27::check(c);
    e28::check(c);
    e29::check(c);
    e30::check(c);
    e31::check(c);
    e32::check(c);
    e33::check(c);
    e34::check(c);
    e35::check(c);
    t0::check(c);
    t1::check(c);
    t2::check(c);
    t3::check(c);
    t4::check(c);
    t5::check(c);
    t6::check(c);
    t7::check(c);
    t8::check(c);
    t9::check(c);
    t10::check(c);
    t11::check(c);
    t12::check(c);
    t13::check(c);
    t14::check(c);
    t15::check(c);
    t16::check(c);
    t17::check(c);
    t18::check(c);
    t19::check(c);
    t20::check(c);
    t21::check(c);
    t22::check(c);
    t23::check(c);
    t24::check(c);
    t25::check(c);
    t26::check(c);
    t27::check(c);
    t28::check(c);
    t29::check(c);
    t30::check(c);
    t31::check(c);
    t32::check(c);
    t33::check(c);
    t34::check(c);
    t35::check(c);
    e36::check(c);
    t36::check(c);
    e37::check(c);
    t37::check(c);
    s0::check(c);
    s1::check(c);
    s2::check(c);
    s3::check(c);
    s4::check(c);
    s5::check(c);
    s6::check(c);
    s7::check(c);
    s8::check(c);
    s9::check(c);
    d0::check(c);
    d1::check(c);
    d2::check(c);
    d3::check(c);
    d4::check(c);
    d5::check(c);
    d6::check(c);
}
