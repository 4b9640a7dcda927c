X="src/solvers/exact.rs"
V=[]
def R(id,*edits,**k): V.append(dict(id=id,kind='refactor',props=[],edits=list(edits),**k))
def B(id,props,*edits,**k): V.append(dict(id=id,kind='bug',props=props,edits=list(edits),**k))
sec=open('/repo/'+X).read()
def fn(name):
    i=sec.index('fn '+name)
    i=sec.rindex('\n',0,i)+1
    j=sec.index('\n}\n',i)+3
    return sec[i:j]
def sub(name,*pairs):
    s=fn(name); t=s
    for a,b in pairs:
        assert a in t,(name,a)
        t=t.replace(a,b,1)
    return (X,s,t)
N='naive_solver';F='first_improved_solver';P='next_permutation'
R('n-while',sub(N,("    loop {\n","    let mut more = true;\n    while more {\n"),("        if !next_permutation(&mut current_permutation) {\n            break;\n        }\n","        more = next_permutation(&mut current_permutation);\n")))
R('n-evalfirst',sub(N,("let mut best_cost = f64::INFINITY;","let mut best_cost = graph_matrix.evaluate_circle(&best_permutation);"),("""    loop {
        let cost""","""    while next_permutation(&mut current_permutation) {
        let cost"""),("        if !next_permutation(&mut current_permutation) {\n            break;\n        }\n","")))
R('n-tuple',sub(N,("""        if cost < best_cost {
            best_cost = cost;
            best_permutation = current_permutation.clone();
        }""","""        if cost < best_cost {
            (best_cost, best_permutation) = (cost, current_permutation.clone());
        }""")))
R('n-clonefrom',sub(N,("            best_permutation = current_permutation.clone();","            best_permutation.clone_from(&current_permutation);")))
R('n-copyslice',sub(N,("            best_permutation = current_permutation.clone();","            best_permutation.copy_from_slice(&current_permutation);")))
R('f-rest',sub(F,("if !next_permutation(&mut current_permutation[1..]) {","let (_, rest) = current_permutation.split_at_mut(1);\n        if !next_permutation(rest) {")))
R('f-gt',sub(F,("if cost < best_cost {","if best_cost > cost {")))
R('f-helper',(X,fn(F),fn(F).replace("""        let cost = graph_matrix.evaluate_circle(&current_permutation);
        if cost < best_cost {
            best_cost = cost;
            best_permutation = current_permutation.clone();
        }
""","""        consider(graph_matrix, &current_permutation, &mut best_cost, &mut best_permutation);
""")+"""
fn consider<T: AdjacencyMatrix>(g: &T, tour: &Path, best_cost: &mut f64, best: &mut Path) {
    let cost = g.evaluate_circle(tour);
    if cost < *best_cost {
        *best_cost = cost;
        *best = tour.clone();
    }
}
"""))
R('n-shared',(X,fn(N),fn(N).replace("    let n = graph_matrix.dim();","    enumerate_from(graph_matrix, 0)\n}\n\nfn enumerate_from<T: AdjacencyMatrix>(graph_matrix: &T, fixed: usize) -> Solution {\n    let n = graph_matrix.dim();").replace("next_permutation(&mut current_permutation)","next_permutation(&mut current_permutation[fixed..])")))
R('p-len1',sub(P,("if array.is_empty() {","if array.len() < 2 {")))
R('p-len0',sub(P,("if array.is_empty() {","if array.len() == 0 {")))
R('p-pivot',sub(P,("array.swap(i - 1, j);","let pivot = i - 1;\n    array.swap(pivot, j);")))
R('p-lt',sub(P,("while i > 0 && array[i - 1] >= array[i] {","while i > 0 && !(array[i - 1] < array[i]) {")))
R('p-loop',sub(P,("    while array[j] <= array[i - 1] {\n        j -= 1;\n    }","    loop {\n        if array[j] > array[i - 1] {\n            break;\n        }\n        j -= 1;\n    }")))
R('p-rpos',sub(P,("    while array[j] <= array[i - 1] {\n        j -= 1;\n    }",""),("let mut j: usize = array.len() - 1;","let j = array.iter().rposition(|x| *x > array[i - 1]).unwrap();")))
R('p-windows',sub(P,("""    let mut i: usize = array.len() - 1;
    while i > 0 && array[i - 1] >= array[i] {
        i -= 1;
    }
    if i == 0 {
        return false;
    }
""","""    let i = match array.windows(2).rposition(|w| w[0] < w[1]) {
        Some(pos) => pos + 1,
        None => return false,
    };
""")))
R('p-revfind',sub(P,("""    let mut i: usize = array.len() - 1;
    while i > 0 && array[i - 1] >= array[i] {
        i -= 1;
    }
    if i == 0 {
        return false;
    }
""","""    let i = match (1..array.len()).rev().find(|&k| array[k - 1] < array[k]) {
        Some(k) => k,
        None => return false,
    };
""")))
R('p-manualrev',sub(P,("    array[i..].reverse();","    let (mut lo, mut hi) = (i, array.len() - 1);\n    while lo < hi {\n        array.swap(lo, hi);\n        lo += 1;\n        hi -= 1;\n    }")))
R('p-sort',sub(P,("    array[i..].reverse();","    array[i..].sort();")))
# bugs
B('bp-strict',['C05'],sub(P,("array[i - 1] >= array[i]","array[i - 1] > array[i]")))
B('bp-pivot1',['C05'],sub(P,("while i > 0 &&","while i > 1 &&"),("if i == 0","if i <= 1")))
B('bp-j',['C05'],sub(P,("while array[j] <= array[i - 1]","while j > i && array[j] <= array[i]")))
B('bp-jstart',['C05'],sub(P,("let mut j: usize = array.len() - 1;\n    while array[j] <= array[i - 1] {\n        j -= 1;\n    }","let mut j: usize = i;\n    while array[j] < array[i - 1] {\n        j += 1;\n    }")))
B('bp-suffix',['C05'],sub(P,("array[i..].reverse();","array[i + 1..].reverse();")))
B('bp-norev',['C05'],sub(P,("    array[i..].reverse();\n","")))
B('bp-len2',['C05'],sub(P,("if array.is_empty() {","if array.len() < 3 {")))
B('bn-lt',['C05'],sub(N,("if cost < best_cost","if cost <= best_cost")))
B('bn-order',['C05'],sub(N,("""        if !next_permutation(&mut current_permutation) {
            break;
        }
""",""),("        let cost =","        if !next_permutation(&mut current_permutation) {\n            break;\n        }\n        let cost =")))
B('bf-2',['C05'],sub(F,("current_permutation[1..]","current_permutation[2..]")))
B('bf-nopath',['C05'],sub(F,("            best_permutation = current_permutation.clone();\n","")))
B('bf-break',['C05'],sub(F,("            best_permutation = current_permutation.clone();","            best_permutation = current_permutation.clone();\n            if best_cost == 0.0 { break; }")))
B('bf-init',['C05'],sub(F,("(0..n).collect()","(0..n).rev().collect()")))
B('bn-init1',['C05'],sub(N,("f64::INFINITY","graph_matrix.evaluate_path(&best_permutation)")))
B('bn-clonelate',['C05'],sub(N,("            best_permutation = current_permutation.clone();\n",""),("        if !next_permutation(&mut current_permutation) {\n            break;\n        }\n","        let better = cost <= best_cost;\n        if !next_permutation(&mut current_permutation) {\n            break;\n        }\n        if better { best_permutation = current_permutation.clone(); }\n")))
