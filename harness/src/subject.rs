//! A proved statement - constraint program or gadget - with everything needed to verify variations.
use crate::gadgets::*;
use crate::prog::*;
use crate::util::*;
use serde_json::Value;

#[derive(Clone)]
pub enum What {
    P(Prog),
    G(Gd),
}
#[derive(Clone)]
pub struct Subj {
    pub what: What,
    pub gn: Gens,
    pub label: &'static [u8],
    pub proof: Value,
    pub comms: Vec<G1>,
    /// real number of gates
    pub n: usize,
    pub desc: String,
}
pub const LABELS: [&[u8]; 5] = [b"L", b"", b"r1cs", b"a longer transcript label", b"L "];
impl Subj {
    pub fn verify(&self) -> Result<(), R1CSError> {
        self.verify_with(&self.proof, &self.comms, self.label, &self.gn)
    }
    pub fn verify_with(&self, p: &Value, comms: &[G1], label: &'static [u8], gn: &Gens) -> Result<(), R1CSError> {
        match &self.what {
            What::P(prog) => verify_prog(prog, gn, label, &jp(p), comms, false).0,
            What::G(g) => g.verify(&jp(p), comms, label, gn),
        }
    }
    pub fn is_gadget(&self) -> bool {
        match self.what {
            What::G(_) => true,
            _ => false,
        }
    }
}
pub fn gadget_subj(r: &mut Rng, gd: Gd, label: &'static [u8]) -> Result<Subj, R1CSError> {
    let np = gd.size();
    let gn = gens(np);
    let rnd = gd.rnd(r);
    let mut rr = r.fork();
    let (p, comms) = gd.prove(rnd, Some(&mut rr), label, &gn)?;
    Ok(Subj { desc: gd.desc(), what: What::G(gd), gn, label, proof: pj(&p), comms, n: np })
}
pub fn prog_subj(r: &mut Rng, cfg: &GenCfg, label: &'static [u8]) -> Result<Subj, R1CSError> {
    let prog = gen_prog(r, cfg);
    let gn = gens(pow2((cfg.n1 + cfg.n2 + 2).max(1)) * 2);
    let (p, st) = prove_prog(&prog, &gn, label, &POpts::default());
    let p = p?;
    let gn = gens(needed(&st));
    Ok(Subj { desc: prog.desc.clone(), what: What::P(prog), gn, label, proof: pj(&p.proof), comms: p.comms, n: st.gates })
}
/// small random subject of any kind; kind < KINDS gadget, else program
pub fn any_subj(r: &mut Rng, kind: usize, size: usize) -> Result<Subj, R1CSError> {
    let label: &'static [u8] = *r.pick(&LABELS);
    if kind < KINDS {
        let gd = gen(r, kind, size);
        gadget_subj(r, gd, label)
    } else {
        let n1 = r.range(0, 2 + 2 * size);
        let n2 = if r.chance(1, 2) { r.range(1, 1 + size) } else { 0 };
        let cfg = GenCfg { commits: r.range(0, 3), n1, n2, constraints: r.range(0, 3), callbacks: if n2 > 0 { 1 } else { 0 }, max_terms: 6 };
        prog_subj(r, &cfg, label)
    }
}
