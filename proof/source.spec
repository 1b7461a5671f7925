// Trees from sources of entries, and back.

//@ fn PalmTree as Default::default in lib.rs
//@ as_impl inherent
//@ props C02
//@ spec
    ensures r.inv(), r.all() =~= Seq::<(K, V)>::empty()

//@ fn PalmTree as IntoIterator::into_iter in lib.rs
//@ as_impl inherent
//@ props C08
//@ ret_ty OwnedIter<K, V, C>
//@ spec
    requires self.inv()
    ensures r.inv(), r.rest() =~= self.all()
//@ start
    proof { if self.root is Some { tight_spine(self.root->0@.st()); } }

//@ fn &PalmTree as IntoIterator::into_iter in lib.rs as ref_into_iter
//@ as_impl inherent
//@ impl_ty PalmTree<K, V, C>
//@ props C05
//@ params &'a self
//@ ret_ty Iter<'a, K, V, C>
//@ spec
    requires self.inv()
    ensures r.inv(), r.rest() =~= self.all()

//@ fn &mutPalmTree as IntoIterator::into_iter in lib.rs as mut_into_iter
//@ as_impl inherent
//@ impl_ty PalmTree<K, V, C>
//@ props C07
//@ params &'a mut self
//@ ret_ty IterMut<'a, K, V, C>
//@ spec
    requires old(self).inv()
    ensures
        final(self).inv(), final(self).all() == old(self).all(),
        final(self).root is None ==> r.nul() && r.right.leaf.nul(),
        final(self).root is Some ==> {
            let p = final(self).root->0;
            &&& r.inv(p)
            &&& between(final(self).all(), r.lo(p), r.hi(p)) =~= old(self).all()
        }

//@ fn PalmTree as FromIterator::from_iter in lib.rs
//@ as_impl inherent
//@ props C02 C04
//@ where I: IntoSource<Item = (K, V)>
//@ spec
    requires iter.ready(), iter.items().len() < usize::MAX
    ensures r.inv(), r.all() == puts(Seq::<(K, V)>::empty(), iter.items())
//@ loop 0
    invariant_except_break puts(Seq::<(K, V)>::empty(), iter.items()) == puts(out.all(), it_x0.coming())
    invariant out.inv(), it_x0.live(), out.all().len() + it_x0.coming().len() < usize::MAX,
    ensures out.all() == puts(Seq::<(K, V)>::empty(), iter.items())
    decreases it_x0.coming().len()
//@ body 0
    proof {
        out.inv_sorted();
        assert forall|x: real| #[trigger] out.inv_for(x) by { out.inv_weak(x); }
        assert forall|k: K, v: V| (#[trigger] put(out.all(), k, v)).len() <= out.all().len() + 1 by { put_len(out.all(), k); }
    }

//@ fn PalmTree as Extend::extend in lib.rs
//@ as_impl inherent
//@ props C02 C04
//@ generics I: IntoSource<Item = (K, V)>
//@ spec
    requires old(self).inv(), iter.ready(), old(self).all().len() + iter.items().len() < usize::MAX
    ensures final(self).inv(), final(self).all() == puts(old(self).all(), iter.items())
//@ loop 0
    invariant_except_break puts(old(self).all(), iter.items()) == puts(self.all(), it_x0.coming())
    invariant self.inv(), it_x0.live(), self.all().len() + it_x0.coming().len() < usize::MAX,
    ensures self.all() == puts(old(self).all(), iter.items())
    decreases it_x0.coming().len()
//@ body 0
    proof {
        self.inv_sorted();
        assert forall|x: real| #[trigger] self.inv_for(x) by { self.inv_weak(x); }
        assert forall|k: K, v: V| (#[trigger] put(self.all(), k, v)).len() <= self.all().len() + 1 by { put_len(self.all(), k); }
    }

//@ fn PalmTree as Extend::extend in lib.rs#1 as extend_refs
//@ as_impl inherent
//@ props C02 C04
//@ generics I: IntoSource<Item = (&'a K, &'a V)>
//@ spec
    requires old(self).inv(), iter.ready(), old(self).all().len() + iter.items().len() < usize::MAX
    ensures final(self).inv(), final(self).all() == puts(old(self).all(), derefs(iter.items()))
//@ loop 0
    invariant_except_break puts(old(self).all(), derefs(iter.items())) == puts(self.all(), derefs(it_x0.coming()))
    invariant self.inv(), it_x0.live(), self.all().len() + it_x0.coming().len() < usize::MAX,
    ensures self.all() == puts(old(self).all(), derefs(iter.items()))
    decreases it_x0.coming().len()
//@ body 0
    proof {
        self.inv_sorted();
        assert forall|x: real| #[trigger] self.inv_for(x) by { self.inv_weak(x); }
        assert forall|k: K, v: V| (#[trigger] put(self.all(), k, v)).len() <= self.all().len() + 1 by { put_len(self.all(), k); }
        if it_x0.coming().len() > 0 { derefs_skip(it_x0.coming()); }
    }
