mod ctx;
mod gf;
mod layers;
mod p_cfloat;
mod p_data;
mod p_io;
mod p_layers;
mod p_matrix;
mod p_net;
mod refm;
use ctx::Ctx;

fn esc(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
  }
  o.push('"');
  o
}
fn list(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")) }

fn main() {
  let a: Vec<String> = std::env::args().collect();
  let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
  let id = a.get(1).cloned().unwrap_or_default();
  let mut c = Ctx {
    id: id.clone(),
    seed: opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
    thorough: opt("--tier").as_deref() == Some("thorough"),
    only: opt("--only"),
    evals: 0, distinct: Default::default(), samples: vec![], fails: vec![], known: vec![], notes: vec![],
  };
  std::panic::set_hook(Box::new(|_| {}));
  let c_ = &mut c;
  match id.as_str() {
    "C01" => p_cfloat::c01(c_),
    "C02" => p_matrix::c02(c_),
    "C03" => p_matrix::c03(c_),
    "C04" => p_matrix::c04(c_),
    "C05" => p_matrix::c05(c_),
    "C06" => p_matrix::c06(c_),
    "C07" => p_layers::c07(c_),
    "C08" => p_layers::c08(c_),
    "C09" => p_net::c09(c_),
    "C10" => p_net::c10(c_),
    "C11" => p_net::c11(c_),
    "C12" => { p_cfloat::c12_values(c_); p_net::c12_net(c_) }
    "C13" => p_cfloat::c13(c_),
    "C14" => p_cfloat::c14(c_),
    "C15" => { p_cfloat::c15_values(c_); p_layers::c15_layers(c_) }
    "C16" => { p_data::c16_data(c_); p_cfloat::onehot(c_); p_net::c16_acc(c_) }
    "C17" => p_io::c17(c_),
    "C18" => p_io::c18(c_),
    "C19" => p_io::c19(c_),
    _ => { eprintln!("unknown property {}", id); std::process::exit(2) }
  }
  let fails: Vec<String> = c.fails.iter().map(|f| format!("{{\"case\":{},\"detail\":{}}}", esc(&f.case), esc(&f.detail))).collect();
  println!("{{\"id\":{},\"seed\":{},\"tier\":{},\"evaluations\":{},\"distinct\":{},\"samples\":{},\"failures\":[{}],\"known\":{},\"notes\":{}}}",
    esc(&c.id), c.seed, esc(if c.thorough { "thorough" } else { "quick" }), c.evals, c.distinct.len(), list(&c.samples), fails.join(","), list(&c.known), list(&c.notes));
  if !c.fails.is_empty() { std::process::exit(1) }
}
