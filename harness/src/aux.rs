//! What is passed to a public step.
use crate::tokens::*;

/// What has been passed on the way to an item: hint, compact, types.
#[derive(Clone, Debug, Default)]
pub struct Aux {
    pub hint: String,
    pub cmp: Option<u32>,
    pub ids: Vec<u32>,
}
impl Aux {
    /// A:hint:compact or -:id+id
    pub fn parse(flags: &[String]) -> Self {
        match flags.iter().find(|f| f.starts_with("A:")) {
            None => Aux { hint: "None".into(), ..Default::default() },
            Some(f) => {
                let q: Vec<&str> = f.split(':').collect();
                Aux {
                    hint: q[1].into(),
                    cmp: if q[2] == "-" { None } else { Some(q[2].parse().unwrap()) },
                    ids: q[3].split('+').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
                }
            }
        }
    }
    pub fn json(&self) -> String {
        format!(
            "{{\"h\":{},\"c\":{},\"ids\":{}}}",
            jstr(&self.hint),
            self.cmp.map_or("-1".to_string(), |x| x.to_string()),
            jlist(&self.ids, |x| x.to_string())
        )
    }
}
