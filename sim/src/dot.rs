//! Reads what `GraphInspection::to_dot_string` writes by the rules of the dot language and compares it
//! with the inspection
use knaster_graph::graph::NodeKey;
use knaster_graph::inspection::{EdgeSource, GraphInspection};

#[derive(Debug, Clone, PartialEq)]
enum Tok {
    Id(String),
    Html(String),
    Sym(char),
    Arrow,
}
fn lex(s: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut r = vec![];
    while i < c.len() {
        match c[i] {
            x if x.is_whitespace() => i += 1,
            '"' => {
                let mut t = String::new();
                i += 1;
                loop {
                    match c.get(i) {
                        None => return Err("a string isn't closed".into()),
                        Some('"') => break,
                        Some('\\') if c.get(i + 1) == Some(&'"') || c.get(i + 1) == Some(&'\\') => {
                            t.push(c[i + 1]);
                            i += 2;
                        }
                        Some(x) => {
                            t.push(*x);
                            i += 1;
                        }
                    }
                }
                i += 1;
                r.push(Tok::Id(t));
            }
            '<' => {
                let (mut d, from) = (0, i + 1);
                loop {
                    match c.get(i) {
                        None => return Err("a label isn't closed".into()),
                        Some('<') => d += 1,
                        Some('>') => d -= 1,
                        _ => (),
                    }
                    i += 1;
                    if d == 0 {
                        break;
                    }
                }
                r.push(Tok::Html(c[from..i - 1].iter().collect()));
            }
            '-' if c.get(i + 1) == Some(&'>') => {
                r.push(Tok::Arrow);
                i += 2;
            }
            x @ ('{' | '}' | '[' | ']' | ';' | ',' | '=' | ':') => {
                r.push(Tok::Sym(x));
                i += 1;
            }
            x if x.is_alphanumeric() || matches!(x, '_' | '.' | '-') => {
                let from = i;
                while i < c.len() && (c[i].is_alphanumeric() || matches!(c[i], '_' | '.')) {
                    i += 1;
                }
                if i == from {
                    return Err(format!("{x} isn't expected"));
                }
                r.push(Tok::Id(c[from..i].iter().collect()));
            }
            x => return Err(format!("{x} isn't expected")),
        }
    }
    Ok(r)
}
/// Ports and text of a label
fn html(s: &str) -> Result<(Vec<String>, String), String> {
    let c: Vec<char> = s.chars().collect();
    let (mut i, mut open, mut ports, mut text) = (0, vec![], vec![], String::new());
    while i < c.len() {
        match c[i] {
            '<' => {
                let end = (i..c.len()).find(|j| c[*j] == '>').ok_or("a tag isn't closed")?;
                let tag: String = c[i + 1..end].iter().collect();
                if let Some(t) = tag.strip_prefix('/') {
                    let o: Option<String> = open.pop();
                    if o.as_deref() != Some(t.trim()) {
                        return Err(format!("{o:?} is closed by {t}"));
                    }
                } else if !tag.ends_with('/') {
                    open.push(tag.split_whitespace().next().unwrap_or("").to_string());
                }
                for q in ['\'', '"'] {
                    if let Some(p) = tag.split(&format!("port={q}")).nth(1) {
                        ports.push(p.split(q).next().unwrap_or("").to_string());
                    }
                }
                i = end + 1;
            }
            '&' => {
                let end = (i..c.len()).find(|j| c[*j] == ';').ok_or("& isn't escaped")?;
                let e: String = c[i + 1..end].iter().collect();
                text.push(match e.as_str() {
                    "lt" | "#60" => '<',
                    "gt" | "#62" => '>',
                    "amp" | "#38" => '&',
                    "quot" | "#34" => '"',
                    "apos" | "#39" => '\'',
                    _ => return Err(format!("&{e}; is unknown")),
                });
                i = end + 1;
            }
            x => {
                text.push(x);
                i += 1;
            }
        }
    }
    if open.is_empty() {
        Ok((ports, text))
    } else {
        Err(format!("{open:?} aren't closed"))
    }
}
pub fn check(s: &str, ins: &GraphInspection) -> Result<(), String> {
    let t = lex(s)?;
    if t.first() != Some(&Tok::Id("digraph".into())) {
        return Err("it isn't a digraph".into());
    }
    let mut i = t.iter().position(|x| *x == Tok::Sym('{')).ok_or("it has no body")? + 1;
    if t.last() != Some(&Tok::Sym('}')) {
        return Err("its body isn't closed".into());
    }
    let mut nodes: Vec<(String, Vec<String>, String)> = vec![];
    let mut edges: Vec<[String; 4]> = vec![];
    let point = |i: &mut usize| -> Result<(String, String), String> {
        let Some(Tok::Id(n)) = t.get(*i) else { return Err(format!("{:?} is not the name of a node", t.get(*i))) };
        *i += 1;
        let mut p = String::new();
        if t.get(*i) == Some(&Tok::Sym(':')) {
            let Some(Tok::Id(x)) = t.get(*i + 1) else { return Err(format!("{:?} is not a port", t.get(*i + 1))) };
            p = x.clone();
            *i += 2;
        }
        Ok((n.clone(), p))
    };
    while i + 1 < t.len() {
        if t[i] == Tok::Sym(';') {
            i += 1;
            continue;
        }
        let a = point(&mut i)?;
        let mut b = None;
        if t[i] == Tok::Arrow {
            i += 1;
            b = Some(point(&mut i)?);
        }
        let mut label = None;
        if t[i] == Tok::Sym('[') {
            i += 1;
            while t.get(i).is_some_and(|x| *x != Tok::Sym(']')) {
                if matches!(t[i], Tok::Sym(',' | ';')) {
                    i += 1;
                    continue;
                }
                let (Tok::Id(k), Some(Tok::Sym('=')), Some(v)) = (&t[i], t.get(i + 1), t.get(i + 2)) else { return Err(format!("{:?} is not an attribute", t[i])) };
                if let (true, Tok::Html(h)) = (k == "label", v) {
                    label = Some(html(h)?);
                }
                i += 3;
            }
            i += 1;
        }
        match b {
            Some(b) => edges.push([a.0, a.1, b.0, b.1]),
            None => {
                let (p, x) = label.unwrap_or_default();
                if nodes.iter().any(|n| n.0 == a.0) {
                    return Err(format!("{} is there twice", a.0));
                }
                nodes.push((a.0, p, x));
            }
        }
    }
    let ports = |k: char, n: u16| (0..n).map(|i| format!("{k}{i}")).collect::<Vec<_>>();
    let mut special = |name: &str, want: Vec<String>| -> Result<(), String> {
        let at = nodes.iter().position(|n| n.0 == name);
        let got = at.map(|i| nodes.remove(i).1).unwrap_or_default();
        if got != want {
            return Err(format!("{name} has the ports {got:?}, but should have {want:?}"));
        }
        Ok(())
    };
    special("graph_out", ports('i', ins.num_outputs))?;
    special("graph_in", ports('o', ins.num_inputs))?;
    if nodes.len() != ins.nodes.len() {
        return Err(format!("{} nodes are drawn, but there are {}", nodes.len(), ins.nodes.len()));
    }
    for (n, m) in nodes.iter().zip(&ins.nodes) {
        let mut want = ports('i', m.inputs);
        want.extend(ports('o', m.outputs));
        if n.1 != want || !n.2.contains(m.name.as_str()) {
            return Err(format!("{} has the ports {:?} and the text {:?}, but the node is called {} and has {} inputs and {} outputs", n.0, n.1, n.2.trim(), m.name, m.inputs, m.outputs));
        }
    }
    let name = |k: NodeKey| ins.nodes.iter().position(|n| n.key == k).map(|i| nodes[i].0.clone());
    let source = |e: &EdgeSource| match e {
        EdgeSource::Node(k) => name(*k),
        EdgeSource::Graph => Some("graph_in".to_string()),
    };
    let mut want = vec![];
    for (i, n) in ins.nodes.iter().enumerate() {
        for e in &n.input_edges {
            if let Some(s) = source(&e.source) {
                want.push([s, format!("o{}", e.from_index), nodes[i].0.clone(), format!("i{}", e.to_index)]);
            }
        }
    }
    for e in &ins.graph_output_edges {
        if let Some(s) = source(&e.source) {
            want.push([s, format!("o{}", e.from_index), "graph_out".into(), format!("i{}", e.to_index)]);
        }
    }
    want.sort();
    edges.sort();
    if want != edges {
        let more: Vec<_> = edges.iter().filter(|e| !want.contains(e)).collect();
        let less: Vec<_> = want.iter().filter(|e| !edges.contains(e)).collect();
        return Err(format!("edges are drawn which aren't there: {more:?}, not drawn: {less:?} ({} of {})", edges.len(), want.len()));
    }
    Ok(())
}
