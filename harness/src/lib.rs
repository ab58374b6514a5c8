//! Entry points of the analysis: every public operation of `corries`, instantiated for the
//! concrete systems, schemes and mesh sizes.  Nothing in here is ever run; the driver reads the
//! monomorphic MIR that these functions reach.
#![allow(clippy::all)]
use color_eyre::Result;
use corries::data::{Data, DataName};
use corries::prelude::*;
use corries::state::variables::Variables;
use corries::time::timestep::TimeStep;
use ndarray::{Array1, Array2};

macro_rules! phys {
    ($m:ident, $P:ident, $E:expr, $S:expr) => {
        pub mod $m {
            use super::*;
            const E: usize = $E;
            const S: usize = $S;
            type P = $P<S>;
            type St = State<P, E, S>;
            type V = Variables<E, S>;
            const W: u8 = Direction::West as u8;
            const C: u8 = Direction::Cent as u8;
            const EA: u8 = Direction::East as u8;
            pub fn consts() -> (usize, usize, usize, usize, usize, bool, bool) {
                (P::NUM_EQ, P::JRHO, P::JXI, P::JETA, P::JPRESSURE, P::IS_ADIABATIC, P::IS_ISOTHERMAL)
            }
            pub fn name() -> String { P::name() }
            pub fn state_new(c: &PhysicsConfig) -> St { St::new(c) }
            pub fn state_default() -> St { St::default() }
            pub fn is_adiabatic(u: &St) -> bool { u.is_adiabatic() }
            pub fn variables_new(c: &PhysicsConfig) -> V { V::new(c) }
            pub fn init_west_east(u: &mut St) { u.init_west_east() }
            pub fn state_clone(u: &St) -> St { u.clone() }
            pub fn variables_clone(v: &V) -> V { v.clone() }
            pub fn variables_assign(v: &mut V, u: &V) { v.assign(u) }
            pub fn p_rows(v: &V) -> [Array1<f64>; 10] {
                [P::rho_prim(v).to_owned(), P::rho_cons(v).to_owned(), P::xi_vel(v).to_owned(), P::xi_mom(v).to_owned(),
                 P::eta_vel(v).to_owned(), P::eta_mom(v).to_owned(), P::pressure(v).to_owned(), P::energy(v).to_owned(),
                 v.eigen_min().to_owned(), v.eigen_max().to_owned()]
            }
            pub fn assign(u: &mut St, v: &St) { u.assign(v) }
            pub fn assign_vars(u: &mut St, v: &St) { u.assign_vars(v) }
            pub fn p_update_prim(v: &mut V) { P::update_prim(v) }
            pub fn p_update_cons(v: &mut V) { P::update_cons(v) }
            pub fn p_update_derived(v: &mut V) { P::update_derived_variables(v) }
            pub fn p_update_c_sound(v: &mut V) { P::update_c_sound(v) }
            pub fn p_update_eigen_vals(v: &mut V) { P::update_eigen_vals(v) }
            pub fn p_update_eigen_vals_min(v: &mut V) { P::update_eigen_vals_min(v) }
            pub fn p_update_eigen_vals_max(v: &mut V) { P::update_eigen_vals_max(v) }
            pub fn p_update_flux(v: &mut V) { P::update_flux(v) }
            pub fn p_validate(v: &V) -> Result<()> { P::validate(v) }
            pub fn p_accessors(v: &V) -> [f64; 8] {
                [P::rho_prim(v)[1], P::rho_cons(v)[1], P::xi_vel(v)[1], P::xi_mom(v)[1], P::eta_vel(v)[1],
                 P::eta_mom(v)[1], P::pressure(v)[1], P::energy(v)[1]]
            }
            pub fn u_update_prim(u: &mut St) { u.update_prim() }
            pub fn u_update_cons(u: &mut St) { u.update_cons() }
            pub fn u_update_derived(u: &mut St) { u.update_derived_variables() }
            pub fn u_update_c_sound(u: &mut St) { u.update_c_sound() }
            pub fn u_update_eigen_vals(u: &mut St) { u.update_eigen_vals() }
            pub fn u_update_eigen_vals_min(u: &mut St) { u.update_eigen_vals_min() }
            pub fn u_update_eigen_vals_max(u: &mut St) { u.update_eigen_vals_max() }
            pub fn u_update_flux(u: &mut St) { u.update_flux() }
            pub fn w_update_prim(u: &mut St) { u.update_prim_d::<W>() }
            pub fn w_update_cons(u: &mut St) { u.update_cons_d::<W>() }
            pub fn w_update_derived(u: &mut St) { u.update_derived_variables_d::<W>() }
            pub fn w_update_c_sound(u: &mut St) { u.update_c_sound_d::<W>() }
            pub fn w_update_eigen_vals(u: &mut St) { u.update_eigen_vals_d::<W>() }
            pub fn w_update_eigen_vals_min(u: &mut St) { u.update_eigen_vals_min_d::<W>() }
            pub fn w_update_eigen_vals_max(u: &mut St) { u.update_eigen_vals_max_d::<W>() }
            pub fn w_update_flux(u: &mut St) { u.update_flux_d::<W>() }
            pub fn e_update_prim(u: &mut St) { u.update_prim_d::<EA>() }
            pub fn e_update_cons(u: &mut St) { u.update_cons_d::<EA>() }
            pub fn e_update_derived(u: &mut St) { u.update_derived_variables_d::<EA>() }
            pub fn e_update_c_sound(u: &mut St) { u.update_c_sound_d::<EA>() }
            pub fn e_update_eigen_vals(u: &mut St) { u.update_eigen_vals_d::<EA>() }
            pub fn e_update_eigen_vals_min(u: &mut St) { u.update_eigen_vals_min_d::<EA>() }
            pub fn e_update_eigen_vals_max(u: &mut St) { u.update_eigen_vals_max_d::<EA>() }
            pub fn e_update_flux(u: &mut St) { u.update_flux_d::<EA>() }
            pub fn c_assign_vars(u: &mut St, v: &St) { u.assign_vars_d::<C>(v) }
            pub fn w_assign_vars(u: &mut St, v: &St) { u.assign_vars_d::<W>(v) }
            pub fn e_assign_vars(u: &mut St, v: &St) { u.assign_vars_d::<EA>(v) }
            pub fn calc_dt_cfl(u: &St, c: f64, m: &Mesh<S>) -> Result<f64> { u.calc_dt_cfl(c, m) }
            pub fn calc_dt_expl(t: &mut TimeStep, u: &mut St, m: &Mesh<S>) -> Result<()> { t.calc_dt_expl::<P, E, S>(u, m) }
            pub fn collect_vars(v: &V, d: &mut Data, o: usize) -> Result<()> { v.collect_data(d, o) }
            pub fn writer_update_data(w: &mut Writer, v: &V, t: &TimeStep, m: &Mesh<S>) -> Result<()> { w.update_data(v, t, m) }
        }
    };
}

macro_rules! mesh {
    ($m:ident, $S:expr) => {
        pub mod $m {
            use super::*;
            const S: usize = $S;
            pub fn mesh_new(c: &MeshConfig) -> Result<Mesh<S>> { Mesh::<S>::new(c) }
            pub fn collect_mesh(m: &Mesh<S>, d: &mut Data, o: usize) -> Result<()> { m.collect_data(d, o) }
            pub fn data_new(n: &DataName, o: usize) -> Data { Data::new::<S>(n, o) }
            pub fn writer_new(c: &CorriesConfig, m: &Mesh<S>) -> Result<Writer> { Writer::new::<S>(c, m) }
            pub fn writer_write_metadata(w: &mut Writer) -> Result<()> { w.write_metadata::<S>() }
        }
    };
}

macro_rules! scheme {
    ($m:ident, $P:ident, $N:ident, $E:expr, $S:expr) => {
        pub mod $m {
            use super::*;
            const E: usize = $E;
            const S: usize = $S;
            type P = $P<S>;
            type N = $N<E, S>;
            type T = RungeKuttaFehlberg<P, E, S>;
            type St = State<P, E, S>;
            type So = Solver<P, N, T, E, S>;
            type R = Rhs<N, E, S>;
            pub fn init_corries(
                c: &CorriesConfig,
                f: fn(&mut St, &mut So, &Mesh<S>) -> Result<()>,
            ) -> Result<CorriesComponents<P, N, T, E, S>> {
                c.init_corries::<P, N, T, E, S>(f)
            }
            pub fn run_corries(c: &mut CorriesComponents<P, N, T, E, S>) -> Result<()> { c.run_corries() }
            pub fn solver_new(c: &CorriesConfig, m: &Mesh<S>) -> Result<So> { So::new(c, m) }
            pub fn solver_next(s: &mut So, u: &mut St, m: &Mesh<S>) -> Result<()> { s.next_solution(u, m) }
            pub fn numflux_new(c: &NumFluxConfig, m: &Mesh<S>) -> Result<N> { <N as NumFlux<E, S>>::new(c, m) }
            pub fn calc_dflux_dxi(n: &mut N, d: &mut Array2<f64>, u: &mut St, m: &Mesh<S>) -> Result<()> {
                n.calc_dflux_dxi::<P>(d, u, m)
            }
            pub fn rhs_new(c: &CorriesConfig, m: &Mesh<S>) -> Result<R> { R::new(c, m) }
            pub fn rhs_update(r: &mut R, u: &mut St, m: &Mesh<S>) -> Result<()> { r.update::<P>(u, m) }
            pub fn ts_new(c: &CorriesConfig) -> Result<T> { <T as TimeSolver<P, E, S>>::new(c) }
            pub fn ts_next(t: &mut T, time: &mut TimeStep, u: &mut St, r: &mut R, m: &Mesh<S>) -> Result<()> {
                t.next_solution::<N>(time, u, r, m)
            }
            pub fn vars_from_prim(u: &mut St, r: &mut R, m: &Mesh<S>) {
                u.update_vars_from_prim(&mut r.boundary_west, &mut r.boundary_east, m)
            }
            pub fn w_vars_from_prim(u: &mut St, r: &mut R, m: &Mesh<S>) {
                u.update_vars_from_prim_d::<{ Direction::West as u8 }>(&mut r.boundary_west, &mut r.boundary_east, m)
            }
            pub fn e_vars_from_prim(u: &mut St, r: &mut R, m: &Mesh<S>) {
                u.update_vars_from_prim_d::<{ Direction::East as u8 }>(&mut r.boundary_west, &mut r.boundary_east, m)
            }
            pub fn w_vars_from_cons(u: &mut St, r: &mut R, m: &Mesh<S>) {
                u.update_vars_from_cons_d::<{ Direction::West as u8 }>(&mut r.boundary_west, &mut r.boundary_east, m)
            }
            pub fn e_vars_from_cons(u: &mut St, r: &mut R, m: &Mesh<S>) {
                u.update_vars_from_cons_d::<{ Direction::East as u8 }>(&mut r.boundary_west, &mut r.boundary_east, m)
            }
            pub fn vars_from_cons(u: &mut St, r: &mut R, m: &Mesh<S>) {
                u.update_vars_from_cons(&mut r.boundary_west, &mut r.boundary_east, m)
            }
            pub fn init_noh(u: &mut St, s: &mut So, m: &Mesh<S>) -> Result<()> { corries::initfuncs::init_noh::<P, N, T, E, S>(u, s, m) }
            pub fn init_sod(u: &mut St, s: &mut So, m: &Mesh<S>) -> Result<()> { corries::initfuncs::init_sod::<P, N, T, E, S>(u, s, m) }
            pub fn default_riemann_test(t: f64, a: &str, b: &str) -> CorriesConfig {
                CorriesConfig::default_riemann_test::<N, E, S>(t, a, b)
            }
        }
    };
}

macro_rules! size {
    ($mm:ident, $pi:ident, $pa:ident, $ih:ident, $ik:ident, $ah:ident, $ak:ident, $S:expr) => {
        mesh!($mm, $S);
        phys!($pi, Euler1DIsot, 2, $S);
        phys!($pa, Euler1DAdiabatic, 3, $S);
        scheme!($ih, Euler1DIsot, Hll, 2, $S);
        scheme!($ik, Euler1DIsot, Kt, 2, $S);
        scheme!($ah, Euler1DAdiabatic, Hll, 3, $S);
        scheme!($ak, Euler1DAdiabatic, Kt, 3, $S);
    };
}

size!(m8, i8_, a8, i8h, i8k, a8h, a8k, 8);
size!(m11, i11, a11, i11h, i11k, a11h, a11k, 11);
size!(m300, i300, a300, i300h, i300k, a300h, a300k, 300);

pub mod misc {
    use super::*;
    pub fn writer_write_output(w: &mut Writer) -> Result<()> { w.write_output() }
    pub fn collect_time(t: &TimeStep, d: &mut Data, o: usize) -> Result<()> { t.collect_data(d, o) }
    pub fn timestep_new(c: &NumericsConfig, n: usize) -> TimeStep { TimeStep::new(c, n) }
    pub fn cap_dt(t: &mut TimeStep) { t.cap_dt() }
    pub fn units_new(m: UnitsMode) -> Units { Units::new(m) }
    pub fn units_all(u: &Units, x: f64) -> [f64; 6] {
        [u.convert_length_to_si(x), u.convert_time_to_si(x), u.convert_mass_to_si(x),
         u.convert_length_to_cgs(x), u.convert_time_to_cgs(x), u.convert_mass_to_cgs(x)]
    }
    pub fn data_fmt(n: &Data) -> String { format!("{}", n) }
    pub fn dtkind_fmt(n: &DtKind) -> String { format!("{}", n) }
    pub fn default_rkf() -> TimeIntegrationConfig { TimeIntegrationConfig::default_rkf() }
    pub fn default_stdout() -> OutputConfig { OutputConfig::default_stdout() }
    pub fn default_file(a: &str, b: &str, n: usize) -> OutputConfig { OutputConfig::default_file(a, b, n) }
    pub fn default_physics() -> PhysicsConfig { PhysicsConfig::default() }
    pub fn default_mesh_riemann() -> MeshConfig { MeshConfig::default_riemann_test() }
}

/// A serialiser whose operations are only named: `begin` and `field` are what the analysis watches.
pub mod rec {
    use serde::ser::*;
    #[derive(Debug)]
    pub struct Er;
    impl std::fmt::Display for Er {
        fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) }
    }
    impl std::error::Error for Er {}
    impl Error for Er {
        fn custom<T: std::fmt::Display>(_: T) -> Self { Er }
    }
    pub struct Rec;
    #[inline(never)]
    pub fn begin(_kind: &'static str, _name: &'static str, _variant: &'static str) {}
    #[inline(never)]
    pub fn field<T: ?Sized + Serialize>(_key: &'static str, value: &T) { let _ = value.serialize(Rec); }
    #[inline(never)]
    pub fn leaf<T: ?Sized>(_value: &T) {}
    #[inline(never)]
    pub fn skipped(_key: &'static str) {}
    macro_rules! plain {
        ($($f:ident $t:ty),*) => { $( fn $f(self, v: $t) -> Result<(), Er> { leaf(&v); Ok(()) } )* };
    }
    impl Serializer for Rec {
        type Ok = ();
        type Error = Er;
        type SerializeSeq = Rec;
        type SerializeTuple = Rec;
        type SerializeTupleStruct = Rec;
        type SerializeTupleVariant = Rec;
        type SerializeMap = Rec;
        type SerializeStruct = Rec;
        type SerializeStructVariant = Rec;
        plain!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16,
               serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char);
        fn serialize_str(self, v: &str) -> Result<(), Er> { leaf(v); Ok(()) }
        fn serialize_bytes(self, _: &[u8]) -> Result<(), Er> { begin("plain", "bytes", ""); Ok(()) }
        fn serialize_none(self) -> Result<(), Er> { begin("none", "", ""); Ok(()) }
        fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), Er> { begin("some", "", ""); field("", v); Ok(()) }
        fn serialize_unit(self) -> Result<(), Er> { begin("unit", "", ""); Ok(()) }
        fn serialize_unit_struct(self, n: &'static str) -> Result<(), Er> { begin("unit_struct", n, ""); Ok(()) }
        fn serialize_unit_variant(self, n: &'static str, _: u32, v: &'static str) -> Result<(), Er> { begin("unit_variant", n, v); Ok(()) }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, n: &'static str, v: &T) -> Result<(), Er> { begin("newtype_struct", n, ""); field("0", v); Ok(()) }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, n: &'static str, _: u32, s: &'static str, v: &T) -> Result<(), Er> { begin("newtype_variant", n, s); field("0", v); Ok(()) }
        fn serialize_seq(self, _: Option<usize>) -> Result<Rec, Er> { begin("seq", "", ""); Ok(Rec) }
        fn serialize_tuple(self, _: usize) -> Result<Rec, Er> { begin("tuple", "", ""); Ok(Rec) }
        fn serialize_tuple_struct(self, n: &'static str, _: usize) -> Result<Rec, Er> { begin("tuple_struct", n, ""); Ok(Rec) }
        fn serialize_tuple_variant(self, n: &'static str, _: u32, v: &'static str, _: usize) -> Result<Rec, Er> { begin("tuple_variant", n, v); Ok(Rec) }
        fn serialize_map(self, _: Option<usize>) -> Result<Rec, Er> { begin("map", "", ""); Ok(Rec) }
        fn serialize_struct(self, n: &'static str, _: usize) -> Result<Rec, Er> { begin("struct", n, ""); Ok(Rec) }
        fn serialize_struct_variant(self, n: &'static str, _: u32, v: &'static str, _: usize) -> Result<Rec, Er> { begin("struct_variant", n, v); Ok(Rec) }
    }
    macro_rules! unnamed {
        ($($t:ident $f:ident),*) => { $( impl $t for Rec {
            type Ok = ();
            type Error = Er;
            fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> { field("", v); Ok(()) }
            fn end(self) -> Result<(), Er> { Ok(()) }
        } )* };
    }
    unnamed!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
    macro_rules! named {
        ($($t:ident),*) => { $( impl $t for Rec {
            type Ok = ();
            type Error = Er;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Er> { field(k, v); Ok(()) }
            fn skip_field(&mut self, k: &'static str) -> Result<(), Er> { skipped(k); Ok(()) }
            fn end(self) -> Result<(), Er> { Ok(()) }
        } )* };
    }
    named!(SerializeStruct, SerializeStructVariant);
    impl SerializeMap for Rec {
        type Ok = ();
        type Error = Er;
        fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> { field("key", v); Ok(()) }
        fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> { field("value", v); Ok(()) }
        fn end(self) -> Result<(), Er> { Ok(()) }
    }
}

pub mod ser {
    use super::rec::*;
    use super::*;
    use serde::Serialize;
    pub fn corries_config(c: &CorriesConfig) -> std::result::Result<(), Er> { c.serialize(Rec) }
    pub fn mesh_config(c: &MeshConfig) -> std::result::Result<(), Er> { c.serialize(Rec) }
    pub fn mesh_mode(c: &MeshMode) -> std::result::Result<(), Er> { c.serialize(Rec) }
    pub fn physics_config(c: &PhysicsConfig) -> std::result::Result<(), Er> { c.serialize(Rec) }
    pub fn units_mode(c: &UnitsMode) -> std::result::Result<(), Er> { c.serialize(Rec) }
    pub fn boundary_mode(c: &BoundaryMode) -> std::result::Result<(), Er> { c.serialize(Rec) }
    pub fn custom_boundary_mode(c: &CustomBoundaryMode) -> std::result::Result<(), Er> { c.serialize(Rec) }
    pub fn numerics_config(c: &NumericsConfig) -> std::result::Result<(), Er> { c.serialize(Rec) }
    pub fn numflux_config(c: &NumFluxConfig) -> std::result::Result<(), Er> { c.serialize(Rec) }
    pub fn limiter_mode(c: &LimiterMode) -> std::result::Result<(), Er> { c.serialize(Rec) }
    pub fn time_integration_config(c: &TimeIntegrationConfig) -> std::result::Result<(), Er> { c.serialize(Rec) }
    pub fn rkf_config(c: &RkfConfig) -> std::result::Result<(), Er> { c.serialize(Rec) }
    pub fn rkf_mode(c: &RKFMode) -> std::result::Result<(), Er> { c.serialize(Rec) }
    pub fn output_config(c: &OutputConfig) -> std::result::Result<(), Er> { c.serialize(Rec) }
    pub fn stream_mode(c: &StreamMode) -> std::result::Result<(), Er> { c.serialize(Rec) }
    pub fn formatting_mode(c: &FormattingMode) -> std::result::Result<(), Er> { c.serialize(Rec) }
    pub fn string_conversion_mode(c: &ToStringConversionMode) -> std::result::Result<(), Er> { c.serialize(Rec) }
    pub fn data_name(c: &DataName) -> std::result::Result<(), Er> { c.serialize(Rec) }
}
