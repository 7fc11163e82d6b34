//! C11: polynomials and trace tables.
use super::*;

fn f_list(v: &[FieldElement]) -> Vec<F> {
    v.iter().map(f_back).collect()
}
pub struct Live {
    p: DensePolynomial,
    target: DensePolynomial,
    table: TraceTable,
}
impl Live {
    pub fn new() -> Live {
        Live { p: dense(&[F::one()]), target: dense(&[F::ZERO]), table: TraceTable::new(1, 1) }
    }
}
pub fn c11(ck: &mut Ck, st: &Value, live: &mut Live) {
    let p = stark::fs(st.f("p"));
    let target = stark::fs(st.f("target"));
    let cols: Table = st.f("table").list().iter().map(stark::fs).collect();
    let op = st.f("op");
    let (i, j) = (op.f("i").u(), op.f("j").u());
    let (x, v) = (stark::f_of(op.f("x")), stark::f_of(op.f("v")));
    let kind = op.f("kind").s().to_string();
    match kind.as_str() {
        "start" => *live = Live::new(),
        "poly" => {
            let Some(q) = ck.get("new", || (dense(&p), dense(&target))) else { return };
            live.p = q.0;
            live.target = q.1;
            ck.eq("zeros", vec![F::ZERO; p.len()], || f_list(DensePolynomial::zeros(p.len()).coefficients()));
            // longer with the same coefficients
            let mut long = p.clone();
            long.resize(2 * p.len(), F::ZERO);
            ck.eq("equal", true, || live.p == dense(&long));
            let mut other = p.clone();
            other[p.len() - 1] = other[p.len() - 1] + F::one();
            ck.eq("unequal", false, || live.p == dense(&other));
        }
        "look" => {
            ck.eq("evaluate", v, || f_back(&live.p.evaluate(&fe(&x))));
            ck.eq("degree", j, || live.p.degree());
            let values = stark::fs(st.f("values"));
            assert!(values == stark::extend(&p, p.len() << i, stark::three()), "trace: extension differs from the reference");
            ck.eq("low_degree_extension", values, || f_list(&live.p.low_degree_extension(1 << i)));
            // further than the specification spells out
            let far = 1024 / p.len();
            ck.eq("low_degree_extension", stark::extend(&p, 1024, stark::three()), || f_list(&live.p.low_degree_extension(far)));
        }
        "divide" => {
            let (z, c) = (fe(&x), fe(&v));
            if let Some(t) = ck.get("divide_out_point_into", || {
                let mut t = live.target.clone();
                live.p.divide_out_point_into(&z, &c, &mut t);
                t
            }) {
                live.target = t;
            }
        }
        "table" => {
            if let Some(t) = ck.get("table", || TraceTable::new(i, j)) {
                live.table = t;
            }
        }
        "cell" => {
            let _ = ck.get("cell", || live.table[(i, j)] = fe(&v));
        }
        "slot" => {
            let _ = ck.get("slot", || live.table[i][j] = fe(&v));
        }
        "row" => {
            let row: Vec<FieldElement> = stark::fs(op.f("row")).iter().map(fe).collect();
            let _ = ck.get("row", || live.table[i].clone_from_slice(&row));
        }
        "interpolate" => {
            let want: Table = st.f("polys").list().iter().map(stark::fs).collect();
            ck.eq("interpolate", want, || live.table.interpolate().iter().map(|p| f_list(p.coefficients())).collect::<Vec<_>>());
        }
        k => panic!("trace: {}", k),
    }
    // nothing else changes
    ck.eq("coefficients", p.clone(), || f_list(live.p.coefficients()));
    ck.eq("length", p.len(), || live.p.len());
    ck.eq(if target.len() > p.len() { "longer target" } else { "target" }, target.clone(), || f_list(live.target.coefficients()));
    if target.len() > 0 && f_list(live.target.coefficients()) != target {
        live.target = dense(&target);
    }
    let (n, m) = (cols[0].len(), cols.len());
    ck.eq("shape", (n, m), || (live.table.num_rows(), live.table.num_columns()));
    ck.eq("generator", F::root(n as u64), || f_back(&live.table.generator()));
    ck.eq("cells", cols.clone(), || (0..m).map(|c| (0..n).map(|r| f_back(&live.table[(r, c)])).collect()).collect::<Table>());
    ck.eq("columns", cols.clone(), || (0..m).map(|c| live.table.iter_column(c).map(f_back).collect()).collect::<Table>());
    ck.eq("column vectors", cols.clone(), || (0..m).map(|c| f_list(&live.table.column_to_mmapvec(c))).collect::<Table>());
    let rows: Table = (0..n).map(|r| cols.iter().map(|c| c[r]).collect()).collect();
    ck.eq("rows", rows.clone(), || (0..n).map(|r| f_list(&live.table[r])).collect::<Table>());
    ck.eq("rows", rows, || (0..n).map(|r| live.table.iter_row(r).map(f_back).collect()).collect::<Table>());
    ck.refuses("outside", || live.table[(n, 0)].clone());
    ck.refuses("outside", || live.table[(0, m)].clone());
}
