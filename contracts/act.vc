@file act/mod.rs mode=f32
@item ComplexActFunc
@for C=Cf32,Cf64 c=cf32,cf64 F=F32,F64 f=f32,f64
@file act/mod.rs mode=$f
@fn sigmoid_$f
@ensures
  is_sig(val.v(), r.v()),
@begin
  proof { lem_exp_pos(val.v()); lem_sig_large(val.v()); lem_sig_forms(val.v()); }
@fn d_sigmoid_$f
@ensures
  is_dsig(val.v(), r.v()),
@begin
  proof {
    assert forall|a: real, b: real| #[trigger] is_sig(val.v(), a) && #[trigger] is_sig(val.v(), b) implies is_dsig(val.v(), a * (1real - b)) && a * (1real - b) == a - a * b by { lem_dsig_close(val.v(), a, b); lem_dsig_forms(a, b); }
  }
@fn relu_$f
@ensures
  r.v() == relu(val.v()),
@fn d_relu_$f
@ensures
  is_drelu(val.v(), r.v()),
@fn ritsigmoid_$c
@ensures
  act_is(ComplexActFunc::RITSigmoid, val.z(), r.z()),
@fn d_ritsigmoid_$c
@ensures
  dact_is(ComplexActFunc::RITSigmoid, val.z(), r.z()),
@begin
  proof { lem_sig(val.z()); }
@fn d_conj_ritsigmoid_$c
@ensures
  dcact_is(ComplexActFunc::RITSigmoid, val.z(), r.z()),
@begin
  proof { lem_sig(val.z()); }
@fn rittanh_$c
@ensures
  act_is(ComplexActFunc::RITTanh, val.z(), r.z()),
@fn d_rittanh_$c
@ensures
  dact_is(ComplexActFunc::RITTanh, val.z(), r.z()),
@begin
  proof { lem_tanh(val.z()); lem_cosh(val.z().re); lem_cosh(val.z().im); lem_dtanh_forms(val.z().re); lem_dtanh_forms(val.z().im); }
@fn d_conj_rittanh_$c
@ensures
  dcact_is(ComplexActFunc::RITTanh, val.z(), r.z()),
@begin
  proof { lem_tanh(val.z()); lem_cosh(val.z().re); lem_cosh(val.z().im); lem_dtanh_forms(val.z().re); lem_dtanh_forms(val.z().im); }
@fn ritrelu_$c
@ensures
  act_is(ComplexActFunc::RITReLU, val.z(), r.z()),
@fn d_ritrelu_$c
@ensures
  dact_is(ComplexActFunc::RITReLU, val.z(), r.z()),
@begin
  proof { lem_relu_all(val.z()); }
@fn d_conj_ritrelu_$c
@ensures
  dcact_is(ComplexActFunc::RITReLU, val.z(), r.z()),
@begin
  proof { lem_relu_all(val.z()); }
@fn zrelu_$c
@ensures
  act_is(ComplexActFunc::ZReLU, val.z(), r.z()),
@fn d_zrelu_$c
@ensures
  dact_is(ComplexActFunc::ZReLU, val.z(), r.z()),
@begin
  proof { lem_zrelu(val.z()); }
@fn d_conj_zrelu_$c
@ensures
  dcact_is(ComplexActFunc::ZReLU, _val.z(), r.z()),
@begin
  proof { lem_zrelu(_val.z()); }
@fn card_$c
@ensures
  act_is(ComplexActFunc::Cardioid, val.z(), r.z()),
@fn d_card_$c
@requires
  znz(val.z()),
@ensures
  dact_is(ComplexActFunc::Cardioid, val.z(), r.z()),
@begin
  proof { lem_card(val.z()); }
@fn d_conj_card_$c
@requires
  znz(val.z()),
@ensures
  dcact_is(ComplexActFunc::Cardioid, val.z(), r.z()),
@begin
  proof { lem_card(val.z()); }
@fn mod_z_$c
@requires
  znz(val.z()),
@ensures
  act_is(ComplexActFunc::ModZ, val.z(), r.z()),
@begin
  proof { lem_modz(val.z()); }
@fn d_mod_z_$c
@requires
  znz(val.z()),
@ensures
  dact_is(ComplexActFunc::ModZ, val.z(), r.z()),
@begin
  proof { lem_modz(val.z()); }
@fn d_conj_mod_z_$c
@requires
  znz(val.z()),
@ensures
  dcact_is(ComplexActFunc::ModZ, val.z(), r.z()),
@begin
  proof { lem_modz(val.z()); }
@fn none_$c
@ensures
  act_is(ComplexActFunc::None, val.z(), r.z()),
@fn d_none_$c
@ensures
  dact_is(ComplexActFunc::None, _val.z(), r.z()),
@begin
  proof { lem_id(_val.z()); }
@fn d_conj_none_$c
@ensures
  dcact_is(ComplexActFunc::None, _val.z(), r.z()),
@begin
  proof { lem_id(_val.z()); }
@fn ComplexActFunc::release_func_$c
@requires
  act_dom(*self, eta_0.z()),
@ensures
  act_is(*self, eta_0.z(), r.z()),
@fn ComplexActFunc::release_dfunc_$c
@requires
  act_dom(*self, eta_0.z()),
@ensures
  dact_is(*self, eta_0.z(), r.z()),
@fn ComplexActFunc::release_dfunc_conj_$c
@requires
  act_dom(*self, eta_0.z()),
@ensures
  dcact_is(*self, eta_0.z(), r.z()),
@fn ComplexActFunc::compute_$c
@requires
  forall|j: int| 0 <= j < old(vals)@.len() ==> act_dom(*self, (#[trigger] old(vals)@[j]).z()),
@ensures
  final(vals)@.len() == old(vals)@.len(),
  forall|j: int| 0 <= j < old(vals)@.len() ==> act_is(*self, old(vals)@[j].z(), (#[trigger] final(vals)@[j]).z()),
@loop 0
  s_0_0@.len() == old(vals)@.len(),
  forall|j: int| i_0 <= j < old(vals)@.len() ==> s_0_0@[j] == old(vals)@[j],
  forall|j: int| 0 <= j < i_0 ==> act_is(*self, old(vals)@[j].z(), (#[trigger] s_0_0@[j]).z()),
@fn ComplexActFunc::compute_d_$c
@requires
  forall|j: int| 0 <= j < old(vals)@.len() ==> act_dom(*self, (#[trigger] old(vals)@[j]).z()),
@ensures
  final(vals)@.len() == old(vals)@.len(),
  forall|j: int| 0 <= j < old(vals)@.len() ==> dact_is(*self, old(vals)@[j].z(), (#[trigger] final(vals)@[j]).z()),
@loop 0
  s_0_0@.len() == old(vals)@.len(),
  forall|j: int| i_0 <= j < old(vals)@.len() ==> s_0_0@[j] == old(vals)@[j],
  forall|j: int| 0 <= j < i_0 ==> dact_is(*self, old(vals)@[j].z(), (#[trigger] s_0_0@[j]).z()),
@fn ComplexActFunc::compute_d_conj_$c
@requires
  forall|j: int| 0 <= j < old(vals)@.len() ==> act_dom(*self, (#[trigger] old(vals)@[j]).z()),
@ensures
  final(vals)@.len() == old(vals)@.len(),
  forall|j: int| 0 <= j < old(vals)@.len() ==> dcact_is(*self, old(vals)@[j].z(), (#[trigger] final(vals)@[j]).z()),
@loop 0
  s_0_0@.len() == old(vals)@.len(),
  forall|j: int| i_0 <= j < old(vals)@.len() ==> s_0_0@[j] == old(vals)@[j],
  forall|j: int| 0 <= j < i_0 ==> dcact_is(*self, old(vals)@[j].z(), (#[trigger] s_0_0@[j]).z()),
@fn ComplexActFunc::compute_val_$c
@requires
  act_dom(*self, val.z()),
@ensures
  act_is(*self, val.z(), r.z()),
@fn ComplexActFunc::compute_d_val_$c
@requires
  act_dom(*self, val.z()),
@ensures
  dact_is(*self, val.z(), r.z()),
@fn ComplexActFunc::compute_d_conj_val_$c
@requires
  act_dom(*self, val.z()),
@ensures
  dcact_is(*self, val.z(), r.z()),
@file math/mod.rs mode=$f
@fn Complex@$C::activate
@requires
  act_dom(*func, self.z()),
@ensures
  act_is(*func, self.z(), r.z()),
@fn Complex@$C::d_activate
@requires
  act_dom(*func, self.z()),
@ensures
  dact_is(*func, self.z(), r.z()),
@fn Complex@$C::d_conj_activate
@requires
  act_dom(*func, self.z()),
@ensures
  dcact_is(*func, self.z(), r.z()),
@fn Complex@$C::activate_mut
@requires
  forall|j: int| 0 <= j < old(vals)@.len() ==> act_dom(*func, (#[trigger] old(vals)@[j]).z()),
@ensures
  final(vals)@.len() == old(vals)@.len(),
  forall|j: int| 0 <= j < old(vals)@.len() ==> act_is(*func, old(vals)@[j].z(), (#[trigger] final(vals)@[j]).z()),
@fn Complex@$C::d_activate_mut
@requires
  forall|j: int| 0 <= j < old(vals)@.len() ==> act_dom(*func, (#[trigger] old(vals)@[j]).z()),
@ensures
  final(vals)@.len() == old(vals)@.len(),
  forall|j: int| 0 <= j < old(vals)@.len() ==> dact_is(*func, old(vals)@[j].z(), (#[trigger] final(vals)@[j]).z()),
@fn Complex@$C::d_conj_activate_mut
@requires
  forall|j: int| 0 <= j < old(vals)@.len() ==> act_dom(*func, (#[trigger] old(vals)@[j]).z()),
@ensures
  final(vals)@.len() == old(vals)@.len(),
  forall|j: int| 0 <= j < old(vals)@.len() ==> dcact_is(*func, old(vals)@[j].z(), (#[trigger] final(vals)@[j]).z()),
@endfor
