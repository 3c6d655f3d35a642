@file init/mod.rs
@item PredictModel
@file err/mod.rs
@item PredicionError #[derive(Debug)]
@for C=Cf32,Cf64 F=F32,F64 f=f32,f64
@raw
// ---------------------------------------------------------------- one-hot targets (C16)
pub open spec fn hot_$f(v: Seq<$F>, n: int, k: int) -> bool { v.len() == n && forall |j: int| 0 <= j < n ==> (#[trigger] v[j]).v() == if j == k { 1real } else { 0real } }
pub open spec fn zhot_$f(v: Seq<$C>, n: int, k: int) -> bool { v.len() == n && forall |j: int| 0 <= j < n ==> (#[trigger] v[j]).z() == if j == k { zc(1real, 0real) } else { zc(0real, 0real) } }
@file math/mod.rs mode=$f
@fn Real@$f::unit
@ensures
  r.v() == 1real,
@fn Real@$f::usize_to_real
@ensures
  r.v() == num as real,
@fn Real@$f::gen_pred
@ensures
  r is Ok <==> critical_index < size, r is Ok ==> hot_$f(r->Ok_0@, size as int, critical_index as int),

@fn Complex@$C::gen_pred
@ensures
  r is Ok <==> critical_index < size, r is Ok ==> zhot_$f(r->Ok_0@, size as int, critical_index as int),
@endfor
