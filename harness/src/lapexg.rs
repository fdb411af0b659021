//! Reading the rules lapex made out of a grammar.
use crate::ast::Gram;
use crate::bnf::{Bnf, Sym, ENTRY};
use std::collections::HashMap;

/// The rules lapex built for a grammar, in our notation: named non-terminals get the indices of `g`.
/// An error describes rules that cannot be those of the grammar.
pub fn from_lapex(
    gr: &lapex_parser::grammar::Grammar,
    g: &Gram,
) -> Result<(Bnf, HashMap<*const (), usize>, HashMap<u16, usize>), String> {
    use lapex_parser::grammar::Symbol;
    let mut nt: HashMap<u16, usize> = HashMap::new();
    let mut next = g.nts.len();
    for s in gr.non_terminals() {
        if let Symbol::NonTerminal(i) = s {
            let ix = match gr.get_production_name(&s) {
                Some(n) => g
                    .nts
                    .iter()
                    .position(|x| x == n)
                    .ok_or_else(|| format!("unknown production {}", n))?,
                None => {
                    next += 1;
                    next - 1
                }
            };
            if nt.insert(i, ix).is_some() {
                return Err(format!("non-terminal {} listed twice", i));
            }
        }
    }
    let mut tk: HashMap<u16, usize> = HashMap::new();
    for (s, n) in gr.terminals_with_names() {
        if let Symbol::Terminal(i) = s {
            let ix = g
                .toks
                .iter()
                .position(|t| t.name == n)
                .ok_or_else(|| format!("unknown token {}", n))?;
            tk.insert(i, ix);
        }
    }
    let conv = |s: &Symbol| -> Result<Option<Sym>, String> {
        Ok(match s {
            Symbol::Epsilon => None,
            Symbol::Terminal(i) => Some(Sym::T(*tk.get(i).ok_or("unknown terminal in a rule")?)),
            Symbol::NonTerminal(i) => {
                Some(Sym::N(*nt.get(i).ok_or("unknown non-terminal in a rule")?))
            }
            Symbol::End => return Err("end marker in a rule".into()),
        })
    };
    let mut rules = Vec::new();
    let mut ptrs = HashMap::new();
    for r in gr.rules() {
        let l = match r.lhs().as_ref().map(conv).transpose()? {
            Some(Some(Sym::N(n))) => n,
            x => return Err(format!("left-hand side {:?}", x)),
        };
        let mut v = Vec::new();
        for s in r.rhs() {
            v.extend(conv(s)?);
        }
        ptrs.insert(r as *const _ as *const (), rules.len());
        rules.push((l, v));
    }
    ptrs.insert(gr.entry_rule() as *const _ as *const (), ENTRY);
    let entry = match conv(gr.entry_point())? {
        Some(Sym::N(n)) => n,
        x => return Err(format!("entry {:?}", x)),
    };
    Ok((
        Bnf {
            ntoks: g.toks.len(),
            nnts: next,
            rules,
            entry,
        },
        ptrs,
        nt,
    ))
}
