//@include prelude.rs
//@assume_bodies
//@include newlayout.rs
//@include vecops.rs
//@include axes_index.rs
//@verify_bodies
//@include permute.rs
//@include reverse_axes.rs

// C05: axis manipulations are relabelings of the same elements.
//@include transpose.rs
pub open spec fn swapping(n: int, a: int, b: int) -> Seq<usize> { Seq::new(n as nat, |i: int| (if i == a { b } else if i == b { a } else { i }) as usize) }

impl Layout {
    //@fn rstsr-common/src/layout/layoutbase.rs :: impl Layout<D> :: permute_dims
    //@param axes=&Vec<isize>
    //@requires
        self.len_ok(),
    //@ensures
        r is Ok <==> axes@.len() == self.shape@.len() && all_axes_ok(axes@, self.shape@.len() as int) && distinct(norm_list(axes@, self.shape@.len() as int)),
        r is Ok ==> ({
            let p = axes_perm(axes@, self.shape@.len() as int);
            forall|idx: Seq<int>| in_range(idx, r->Ok_0.shape@) ==> in_range(#[trigger] relabel(idx, p), self.shape@) && r->Ok_0.addr(idx) == self.addr(relabel(idx, p))
        }),
    //@end
    //@fn rstsr-common/src/layout/layoutbase.rs :: impl Layout<D> :: swapaxes
    //@requires
        self.len_ok(),
    //@ensures
        r is Ok <==> axis_ok(axis1 as int, self.shape@.len() as int) && axis_ok(axis2 as int, self.shape@.len() as int),
        r is Ok ==> ({
            let n = self.shape@.len() as int;
            let p = swapping(n, axis_norm(axis1 as int, n), axis_norm(axis2 as int, n));
            permuted(*self, r->Ok_0, p)
            && forall|idx: Seq<int>| in_range(idx, r->Ok_0.shape@) ==> in_range(#[trigger] relabel(idx, p), self.shape@) && r->Ok_0.addr(idx) == self.addr(relabel(idx, p))
        }),
    //@at end
        proof {
            let n = self.shape@.len() as int;
            let p = swapping(n, axis1 as int, axis2 as int);
            assert forall|i: int, j: int| 0 <= i < j < p.len() implies p[i] != p[j] by {}
            assert(p.no_duplicates());
            assert(is_perm(p, n));
            lemma_permuted(*self, Layout { shape, stride, offset: self.offset }, p);
        }
    //@end
}
}
fn main() {}
