import sys; sys.path.insert(0, '/verif/tools/v')
from _h import mk
V1, R1, B1, fn1, sub1, rep1, src1 = mk("src/solvers/approximate/matching.rs")
V2, R2, B2, fn2, sub2, rep2, src2 = mk("src/mst.rs")
V3, R3, B3, fn3, sub3, rep3, src3 = mk("src/solvers/approximate/christofides.rs")
C = ['C12']
P01 = "unsafe { chunk.as_mut_ptr().offset(0).as_mut().unwrap() }"
P23 = "unsafe { chunk.as_mut_ptr().offset(1).as_mut().unwrap() }"
for f, nm in (('seq', 'improve_matching'), ('par', 'par_improve_matching')):
    ck = "chunks_exact_mut(2)" if f == 'seq' else "par_chunks_exact_mut(2)"
    E01 = "let edg01 = " + P01 + ";"
    E23 = "let edg23 = " + P23 + ";"
    s = lambda *p, nm=nm: sub1(nm + "(", *p, start='\nfn ')
    R1('m-%s-add' % f, s((P01, "unsafe { &mut *chunk.as_mut_ptr() }"), (P23, "unsafe { &mut *chunk.as_mut_ptr().add(1) }")))
    R1('m-%s-ptr' % f, s((E01, "let first = chunk.as_mut_ptr();\n let edg01 = unsafe { first.as_mut().unwrap() };"), (E23, "let edg23 = unsafe { first.wrapping_add(1).as_mut().unwrap() };")))
    R1('m-%s-split' % f, s((E01, "let (left, right) = chunk.split_at_mut(1);"), (E23, ""), ("optimize_two_matching(edg01, edg23, graph)", "optimize_two_matching(&mut left[0], &mut right[0], graph)")))
    R1('m-%s-pattern' % f, s((E01, "if let [edg01, edg23] = chunk {"), (E23, ""), ("optimize_two_matching(edg01, edg23, graph);", "optimize_two_matching(edg01, edg23, graph); }")))
    R1('m-%s-unchecked' % f, s((P01, "unsafe { &mut *(chunk.get_unchecked_mut(0) as *mut [usize; 2]) }"), (P23, "unsafe { &mut *(chunk.get_unchecked_mut(1) as *mut [usize; 2]) }")))
    B1('m-%s-chunks' % f, C, s((ck, ck.replace("_exact", ""))))
    B1('m-%s-off2' % f, C, s((P23, P23.replace("offset(1)", "offset(2)"))))
    B1('m-%s-neg' % f, C, s((P01, P01.replace("offset(0)", "offset(-1)"))))
    B1('m-%s-one' % f, C, s((ck, ck.replace("2", "1"))))
R1('m-par-chunks4', sub1("par_improve_matching(", ("par_chunks_exact_mut(2)", "par_chunks_exact_mut(4)"), ("optimize_two_matching(edg01, edg23, graph);", "optimize_two_matching(edg01, edg23, graph);\n let e2 = unsafe { chunk.as_mut_ptr().offset(2).as_mut().unwrap() };\n let e3 = unsafe { chunk.as_mut_ptr().offset(3).as_mut().unwrap() };\n optimize_two_matching(e2, e3, graph);"), start='\nfn ')) if False else None
# --- prim
U = "impl FindMinCostEdge for MultiThreadedVecWrapper"
def u(*pairs):
    i = src2.index(U); s = src2[i:src2.index("fn find_edge_with_minimal_cost", i)]; t = s
    for a, b in pairs:
        assert a in t, a
        t = t.replace(a, b, 1)
    return ("src/mst.rs", s, t)
R2('p-stride', u(("let dim = new_neighbours.shape().1;", "let dim = new_neighbours.ncols();")))
R2('p-index', u(("unsafe { *neighbour_prt.add(dim * to) }", "new_neighbours[to]")))
R2('p-unchecked', u(("unsafe { *neighbour_prt.add(dim * to) }", "unsafe { *new_neighbours.get_unchecked(to) }")))
R2('p-struct', u(("(*to_dist_ptr.add(to)).0 = Edge { to: from, cost };", "let cell = &mut *to_dist_ptr.add(to);\n cell.0.to = from;\n cell.0.cost = cost;")))
R2('p-rawread', u(("if cost < self[to].0.cost {", "if cost < unsafe { (*to_dist_ptr.add(to)).0.cost } {")))
R2('p-len', u(("(0..dim).into_par_iter()", "(0..self.0.len()).into_par_iter()"))) if False else None
B2('p-from', C, u(("(*to_dist_ptr.add(to)).0 = Edge", "(*to_dist_ptr.add(from)).0 = Edge")))
B2('p-next', C, u(("(*to_dist_ptr.add(to)).0 = Edge", "(*to_dist_ptr.add(to + 1)).0 = Edge")))
B2('p-zero', C, u(("(*to_dist_ptr.add(to)).0 = Edge", "(*to_dist_ptr.add(to / 2)).0 = Edge")))
B2('p-row', C, u(("*neighbour_prt.add(dim * to)", "*neighbour_prt.add(dim * to + dim)")))
B2('p-incl', C, u(("(0..dim).into_par_iter()", "(0..=dim).into_par_iter()"), ("if cost < self[to].0.cost {", "if cost < f64::INFINITY {")))
B2('p-mutate', C, u(("let to_dist_ptr = self", "unsafe { *neighbour_prt.add(dim * to) = f64::INFINITY; }\n            let to_dist_ptr = self")))
B2('p-neighbour', C, u(("if cost < self[to].0.cost {", "if cost < self[to].0.cost && (to == 0 || self[to - 1].0.cost > 0.0) {")))
# --- multigraph
F = 'fill_multigraph_with_mst_and_matching'
W1 = "(*multigraph_prt.add(j * dim + i)).1 += 1;"
W2 = "(*multigraph_prt.add(i * dim + j)).1 += 1;"
R3('f-swap', sub3(F, (W1, "//1"), (W2, W2 + "\n" + W1)))
R3('f-ref', sub3(F, (W1, "let cell = &mut *multigraph_prt.add(i + dim * j);\n cell.1 += 1;")))
R3('f-bind', sub3(F, (W1, "let there = multigraph_prt.add(j * dim + i);\n (*there).1 = (*there).1 + 1;")))
B3('f-off', C, sub3(F, (W1, "(*multigraph_prt.add(j * dim + i + 1)).1 += 1;")))
B3('f-diag', C, sub3(F, (W1, "(*multigraph_prt.add(j * dim + i)).1 += 1;\n (*multigraph_prt).1 += 2;")))
B3('f-row', C, sub3(F, (W1, "(*multigraph_prt.add(i)).1 += 1;")))
B3('f-big', C, sub3(F, (W2, "(*multigraph_prt.add((i + 1) * dim + j)).1 += 1;")))
V = V1 + V2 + V3
