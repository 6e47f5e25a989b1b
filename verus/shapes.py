"""The key types whose derived code is put under contract, and their contracts.

Each shape is (name, kind, variants), a variant is (name, component type or
None). T and S are components of which nothing is known except that their
storages keep the contracts of MapStorage and SetStorage; what is proved of
Mix, Rev and Two holds for whatever keys are put in their place.
"""

import re
import string


def names(n):
    return [a if i < 26 else string.ascii_uppercase[i // 26 - 1] + a
            for i in range(n) for a in [string.ascii_uppercase[i % 26]]]


def unit(name, n, kind="unit", discr=None):
    return (name, kind, [(v, None) for v in names(n)], discr or {})


SHAPES = [
    unit("U1", 1),
    unit("U3", 3, discr={"A": 7, "B": -1, "C": 1}),
    unit("U9", 9),
    unit("B1", 1, "bits"),
    unit("B3", 3, "bits", {"A": 2, "B": 1, "C": 0}),
    unit("B8", 8, "bits"),
    unit("B9", 9, "bits"),
    unit("B16", 16, "bits"),
    unit("B17", 17, "bits"),
    unit("B32", 32, "bits"),
    unit("B33", 33, "bits"),
    unit("B64", 64, "bits"),
    unit("B65", 65, "bits"),
    unit("B128", 128, "bits"),
    ("Mix", "any", [("A", None), ("B", "T"), ("C", "S"), ("D", None)], {}),
    ("Rev", "any", [("A", "S"), ("B", None)], {}),
    ("Only", "any", [("A", "T")], {}),
    ("Opt", "any", [("A", "Option<T>"), ("B", "bool")], {}),
]

OPAQUE = ["T", "S"]


def width(n):
    return next(w for w in (8, 16, 32, 64, 128) if n <= w)


def lib():
    out = ["use fixed_map::Key;"]
    for t in OPAQUE:
        out.append(f"#[derive(Clone, Copy, PartialEq, Eq, Key)]\npub enum {t} {{ A, B }}")
    for name, kind, vs, discr in SHAPES:
        out.append("#[derive(Clone, Copy, PartialEq, Eq, Key)]")
        if kind == "bits":
            out.append("#[key(bitset)]")
        body = ", ".join(v + (f"({c})" if c else f" = {discr[v]}" if v in discr else "") for v, c in vs)
        out.append(f"pub enum {name} {{ {body} }}")
    return "\n".join(out) + "\n"


ENTRY = """    requires self.wf()
    ensures *r == {val}
"""


def map_specs(shapes=None):
    out = []
    put = out.append
    for t in OPAQUE:
        put(opaque_map(t))
    for name, kind, vs, _ in SHAPES:
        if shapes and name not in shapes or len(vs) > 9:
            continue
        m = f"shapes::of_{name}"
        st = "VacantEntry" if kind != "any" else "SimpleVacantEntry"
        so = "OccupiedEntry" if kind != "any" else "SimpleOccupiedEntry"
        put(f"""@ mod {m}
use crate::map::entry::Entry;
use crate::map::storage::{{OccupiedEntry as _, VacantEntry as _}};
{"broadcast use crate::one_is;" if kind == "any" else ""}
@ fn {m}::option_to_entry
    ensures match r {{
        Entry::Occupied(e) => e.wf() && e.key_() == $2 && *old($1) == Some(e.val_()) && e.fin_() == *final($1),
        Entry::Vacant(e) => e.wf() && e.key_() == $2 && old($1).is_none() && e.fin_() == *final($1),
    }}""")
        if kind == "any":
            # The entries of the variants without a component.
            put(f"""@ impl {m}::SimpleVacantEntry
    pub closed spec fn wf(&self) -> bool {{ self.inner.wf_() }}
    pub closed spec fn key_(&self) -> {name} {{ self.key }}
    #[verifier::prophetic]
    pub closed spec fn fin_(&self) -> Option<V> {{ self.inner.fin() }}
@ fn {m}::SimpleVacantEntry::insert
    requires self.wf()
    ensures *r == $1, self.fin_() == Some(*final(r))
@ impl {m}::SimpleOccupiedEntry
    pub closed spec fn wf(&self) -> bool {{ self.inner.wf_() }}
    pub closed spec fn key_(&self) -> {name} {{ self.key }}
    pub closed spec fn val_(&self) -> V {{ self.inner.val() }}
    #[verifier::prophetic]
    pub closed spec fn fin_(&self) -> Option<V> {{ self.inner.fin() }}
@ fn {m}::SimpleOccupiedEntry::get
    requires self.wf()
    ensures *r == self.val_()
@ fn {m}::SimpleOccupiedEntry::get_mut
    requires old(self).wf()
    ensures *r == old(self).val_(), final(self).wf(), final(self).val_() == *final(r),
        final(self).key_() == old(self).key_(), final(self).fin_() == old(self).fin_()
@ fn {m}::SimpleOccupiedEntry::into_mut
    requires self.wf()
    ensures *r == self.val_(), self.fin_() == Some(*final(r))
@ fn {m}::SimpleOccupiedEntry::insert
    requires old(self).wf()
    ensures r == old(self).val_(), final(self).wf(), final(self).val_() == $1,
        final(self).key_() == old(self).key_(), final(self).fin_() == old(self).fin_()
@ fn {m}::SimpleOccupiedEntry::remove
    requires self.wf()
    ensures r == self.val_(), self.fin_() == None::<V>""")

            def both(e, fn, plain, wrap):
                arms = [f"{e}::Simple(e) => {plain}"]
                arms += [f"{e}::_{i}(e) => {wrap(v)}" for i, (v, c) in enumerate(vs) if c]
                return "match self { " + ", ".join(arms) + " }"
            for e, t in (("VacantEntry", "VacantEntry"), ("OccupiedEntry", "OccupiedEntry")):
                put(f"@ impl {t} for {m}::{e}")
                put(f"    closed spec fn wf(&self) -> bool {{ {both(e, 'wf', 'e.wf()', lambda v: 'e.wf()')} }}")
                put(f"    closed spec fn key_(&self) -> {name} {{ {both(e, 'key_', 'e.key_()', lambda v: f'{name}::{v}(e.key_())')} }}")
                if e == "OccupiedEntry":
                    put(f"    closed spec fn val_(&self) -> V {{ {both(e, 'val_', 'e.val_()', lambda v: 'e.val_()')} }}")
                put("    #[verifier::prophetic]")
                put(f"    closed spec fn fin_(&self) -> Option<V> {{ {both(e, 'fin_', 'e.fin_()', lambda v: 'e.fin_()')} }}")
            at = ", ".join(f"{name}::{v}(k) => self._{i}.at(k)" if c else f"{name}::{v} => self._{i}"
                           for i, (v, c) in enumerate(vs))
            count = " + ".join(f"self._{i}.count()" if c else f"crate::one(self._{i}.is_some())" for i, (v, c) in enumerate(vs))
            wf = " && ".join([f"self._{i}.wf()" for i, (v, c) in enumerate(vs) if c])
            lemma = "\n".join(
                f"        self._{i}.lemma_count();\n        assert forall|k: {c}| #[trigger] self._{i}.at(k) == self.at({name}::{v}(k)) by {{}}"
                if c else f"        assert(self.at({name}::{v}) == self._{i});" for i, (v, c) in enumerate(vs))
        else:
            put(f"""@ impl VacantEntry for {m}::VacantEntry
    closed spec fn wf(&self) -> bool {{ self.inner.wf_() }}
    closed spec fn key_(&self) -> {name} {{ self.key }}
    #[verifier::prophetic]
    closed spec fn fin_(&self) -> Option<V> {{ self.inner.fin() }}
@ impl OccupiedEntry for {m}::OccupiedEntry
    closed spec fn wf(&self) -> bool {{ self.inner.wf_() }}
    closed spec fn key_(&self) -> {name} {{ self.key }}
    closed spec fn val_(&self) -> V {{ self.inner.val() }}
    #[verifier::prophetic]
    closed spec fn fin_(&self) -> Option<V> {{ self.inner.fin() }}""")
            at = ", ".join(f"{name}::{v} => self.data.{i}" for i, (v, _) in enumerate(vs))
            count = " + ".join(f"crate::one(self.data.{i}.is_some())" for i in range(len(vs)))
            wf = "true"
            # The sizes are sums of many terms, most of which do not change.
            for f in "empty insert remove clear".split():
                put(f"@ before <{m}::__MapStorage as MapStorage>::{f}\ncrate::ones();")
            put(f"@ before <{m}::__MapStorage as MapStorageEntry>::entry\ncrate::ones();")
            put(f"@ before <{m}::__MapStorage as MapStorage>::is_empty\nreveal(crate::one);")
            put(f"@ before <{m}::__MapStorage as MapStorage>::len\nreveal(crate::one);")
            lemma = "        reveal(crate::one);\n" + "\n".join(f"        assert(self.at({name}::{v}) == self.data.{i});" for i, (v, _) in enumerate(vs))
        if any(c for _, c in vs):
            put(f"@ trusted\n<{m}::__MapStorage as MapStorage>::retain")
        put(f"""@ impl MapStorage for {m}::__MapStorage
    closed spec fn at(&self, k: {name}) -> Option<V> {{ match k {{ {at} }} }}
    closed spec fn count(&self) -> nat {{ {count} }}
    closed spec fn wf(&self) -> bool {{ {wf} }}
    proof fn lemma_count(&self) {{
{lemma}
    }}""")
        if kind == "any" and all(c in OPAQUE + [None] for _, c in vs):
            for g, ty, fn, _, _ in MAP_ITERS:
                mode = "keys" if g == "Keys" else "values" if g.startswith("Values") else "pairs"
                composite_iterator(put, m, name, vs, "__MapStorage" + ty, mode,
                                   f"@ emit MapStorage{g} for {m}::__MapStorage")
            put(composite_seq(m, name, vs))
    return "\n".join(out) + "\n"


def composite_seq(m, name, vs):
    parts, before, pos, lts, lemma = [], "0", [], [], []
    for i, (v, c) in enumerate(vs):
        if c:
            s = f"self._{i}.seq()"
            parts.append(f"Seq::new({s}.len(), |i: int| ({name}::{v}({s}[i].0), {s}[i].1))")
            pos.append(f"{name}::{v}(k) => ({before}) as int + self._{i}.pos(k)")
            lemma.append(f"self._{i}.lemma_seq();")
            before += f" + {s}.len()"
        else:
            parts.append(f"(if self._{i}.is_some() {{ seq![({name}::{v}, self._{i}->Some_0)] }} else {{ Seq::empty() }})")
            pos.append(f"{name}::{v} => ({before}) as int")
            before += f" + crate::one(self._{i}.is_some())"
    rank = ", ".join(f"{name}::{v}{'(_)' if c else ''} => {i}" for i, (v, c) in enumerate(vs))
    same = ", ".join([f"({name}::{v}(a), {name}::{v}(b)) => <<{c} as crate::key::Key<V>>::MapStorage as MapStorageSeq<{c}, V>>::lt(a, b)"
                      for v, c in vs if c] + ["_ => false"])
    lemma_lt = "\n".join(
        f"        if let ({name}::{v}(a), {name}::{v}(b), {name}::{v}(c)) = (a, b, c) {{ <<{c} as crate::key::Key<V>>::MapStorage as MapStorageSeq<{c}, V>>::lemma_lt(a, b, c); }}\n"
        f"        if let ({name}::{v}(a), {name}::{v}(b)) = (a, b) {{ <<{c} as crate::key::Key<V>>::MapStorage as MapStorageSeq<{c}, V>>::lemma_lt(a, b, b); }}\n"
        f"        if let {name}::{v}(a) = a {{ <<{c} as crate::key::Key<V>>::MapStorage as MapStorageSeq<{c}, V>>::lemma_lt(a, a, a); }}"
        for v, c in vs if c)
    return f"""@ mod {m}
use crate::order::*;
pub open spec fn rank(k: {name}) -> int {{ match k {{ {rank} }} }}
impl<V> MapStorageSeq<{name}, V> for __MapStorage<V> {{
    open spec fn lt(a: {name}, b: {name}) -> bool {{
        rank(a) < rank(b) || rank(a) == rank(b) && match (a, b) {{ {same} }}
    }}
    closed spec fn seq(&self) -> Seq<({name}, V)> {{
        {" + ".join(parts)}
    }}
    closed spec fn pos(&self, k: {name}) -> int {{ match k {{ {", ".join(pos)} }} }}
    proof fn lemma_lt(a: {name}, b: {name}, c: {name}) {{
{lemma_lt}
    }}
    proof fn lemma_seq(&self) {{
        {" ".join(lemma)}
    }}
}}"""


def composite_set_seq(m, name, vs):
    parts, before, pos, lemma = [], "0", [], []
    for i, (v, c) in enumerate(vs):
        if c:
            s = f"self._{i}.seq()"
            parts.append(f"Seq::new({s}.len(), |i: int| {name}::{v}({s}[i]))")
            pos.append(f"{name}::{v}(k) => ({before}) as int + self._{i}.pos(k)")
            lemma.append(f"self._{i}.lemma_seq();")
            before += f" + {s}.len()"
        else:
            parts.append(f"(if self._{i} {{ seq![{name}::{v}] }} else {{ Seq::empty() }})")
            pos.append(f"{name}::{v} => ({before}) as int")
            before += f" + crate::one(self._{i})"
    rank = ", ".join(f"{name}::{v}{'(_)' if c else ''} => {i}" for i, (v, c) in enumerate(vs))

    def st(c):
        return f"<<{c} as crate::key::Key>::SetStorage as SetStorageSeq<{c}>>"
    same = ", ".join([f"({name}::{v}(a), {name}::{v}(b)) => {st(c)}::lt(a, b)" for v, c in vs if c] + ["_ => false"])
    lemma_lt = "\n".join(
        f"        if let ({name}::{v}(a), {name}::{v}(b), {name}::{v}(c)) = (a, b, c) {{ {st(c)}::lemma_lt(a, b, c); }}\n"
        f"        if let ({name}::{v}(a), {name}::{v}(b)) = (a, b) {{ {st(c)}::lemma_lt(a, b, b); }}\n"
        f"        if let {name}::{v}(a) = a {{ {st(c)}::lemma_lt(a, a, a); }}"
        for v, c in vs if c)
    return f"""@ mod {m}
use crate::order::*;
pub open spec fn rank(k: {name}) -> int {{ match k {{ {rank} }} }}
impl SetStorageSeq<{name}> for __SetStorage {{
    open spec fn lt(a: {name}, b: {name}) -> bool {{
        rank(a) < rank(b) || rank(a) == rank(b) && match (a, b) {{ {same} }}
    }}
    closed spec fn seq(&self) -> Seq<{name}> {{
        {" + ".join(parts)}
    }}
    closed spec fn pos(&self, k: {name}) -> int {{ match k {{ {", ".join(pos)} }} }}
    proof fn lemma_lt(a: {name}, b: {name}, c: {name}) {{
{lemma_lt}
    }}
    proof fn lemma_seq(&self) {{
        {" ".join(lemma)}
    }}
}}"""


# Name, function, receiver, item, item of a variant with a component, field of a variant without one.
MAP_ITERS = [
    ("Iter", "Iter", "iter", "&'this self", "({K}, &'a V)"),
    ("Keys", "Keys", "keys", "&'this self", "{K}"),
    ("Values", "Values", "values", "&'this self", "&'a V"),
    ("IterMut", "IterMut", "iter_mut", "&'this mut self", "({K}, &'a mut V)"),
    ("ValuesMut", "ValuesMut", "values_mut", "&'this mut self", "&'a mut V"),
    ("Into", "IntoIter", "into_iter", "self", "({K}, V)"),
]


SAME = {"": "a == b", "mut": "*a == *b && *final(a) == *final(b)",
        "mut_pairs": "a.0 == b.0 && *a.1 == *b.1 && *final(a.1) == *final(b.1)"}


def opaque_iterator(trait, ty, fn, recv, item, t, args, phantom, storage, lives=False):
    """An iterator of which only the contract is known."""
    into = trait.endswith("Into")
    life = "" if into else "'a, "
    gen = f"<{life}{args}>".replace(", >", ">").replace("<>", "")
    tgen = gen.replace("'a", "'this")
    params = f"<{'' if into else chr(39) + 'this, '}{t}{', V' if args else ''}>"
    head = f"<{'' if into else chr(39) + 'this, '}{args}>".replace(", >", ">").replace("<>", "")
    where = "" if into or not args else "where V: 'this"
    reject = "#[verifier::reject_recursive_types(V)]\n" if args else ""
    return f"""#[verifier::external_body]
{reject}pub struct {ty}{gen} {{ p: PhantomData<{phantom}> }}
impl{gen} Iterator for {ty}{gen} {{
    type Item = {item};
    uninterp spec fn iwf(&self) -> bool;
    uninterp spec fn rest(&self) -> Seq<{item}>;
    #[verifier::prophetic]
    open spec fn same(a: {item}, b: {item}) -> bool {{ {SAME["mut_pairs" if trait.endswith("IterMut") else "mut" if trait.endswith("ValuesMut") else ""]} }}
    #[verifier::external_body] fn next(&mut self) -> Option<{item}> {{ unimplemented!() }}
    #[verifier::external_body] fn size_hint(&self) -> (usize, Option<usize>) {{ unimplemented!() }}
}}
impl{gen} DoubleEndedIterator for {ty}{gen} {{
    #[verifier::external_body] fn next_back(&mut self) -> Option<{item}> {{ unimplemented!() }}
}}
impl{head} {trait}{params} for {storage} {where} {{
    type {ty} = {ty}{tgen};
    #[verifier::external_body] fn {fn}({recv}) -> Self::{ty} {{ unimplemented!() }}
}}
"""


def composite_iterator(put, m, name, vs, ty, mode, emit):
    """Contracts of the iterator a composite key derives.

    mode: "pairs", "keys", "values" of a map, "set" of a set."""
    n = len(vs)
    kind = "mut_pairs" if ty.endswith("IterMut") else "mut" if ty.endswith("ValuesMut") else ""
    parts = []
    for i, (v, c) in enumerate(vs):
        x = {"pairs": f"({name}::{v}, self._{i}->Some_0)", "keys": f"{name}::{v}",
             "values": f"self._{i}->Some_0", "set": f"{name}::{v}"}[mode]
        some = f"self._{i}" if mode in ("keys", "set") else f"self._{i}.is_some()"
        if c is None:
            parts.append(f"(if {some} {{ seq![{x}] }} else {{ Seq::empty() }})")
        else:
            s = f"self._{i}.rest()"
            y = {"pairs": f"({name}::{v}({s}[i].0), {s}[i].1)", "keys": f"{name}::{v}({s}[i])",
                 "values": f"{s}[i]", "set": f"{name}::{v}({s}[i])"}[mode]
            parts.append(f"Seq::new({s}.len(), |i: int| {y})")
    gone = []
    for i, (v, c) in enumerate(vs):
        none = f"self._{i}.rest().len() == 0" if c else (f"!self._{i}" if mode in ("keys", "set") else f"self._{i}.is_none()")
        gone.append(f"(({i} < self.start || {i} >= self.end) ==> {none})")
    wf = [f"self._{i}.iwf()" for i, (v, c) in enumerate(vs) if c]
    put(emit)
    for tr in ("Iterator", "DoubleEndedIterator"):
        put(f"@ emit {tr} for {m}::{ty}")
    put(f"""@ impl Iterator for {m}::{ty}
    closed spec fn iwf(&self) -> bool {{
        self.start <= self.end && self.end <= {n} && {" && ".join(wf + gone)}
    }}
    closed spec fn rest(&self) -> Seq<Self::Item> {{
        {" + ".join(parts)}
    }}
    #[verifier::prophetic]
    open spec fn same(a: Self::Item, b: Self::Item) -> bool {{ {SAME[kind]} }}""")
    for tr, fn in (("Iterator", "next"), ("DoubleEndedIterator", "next_back")):
        put(f"""@ loop <{m}::{ty} as {tr}>::{fn}
    invariant self.iwf(), self.rest() =~= old(self).rest()
    ensures self.rest().len() == 0, self.iwf()
    decreases self.end - self.start""")


def opaque_map(t):
    """A key of which only the contract of its storage is known."""
    iters = "".join(
        opaque_iterator("MapStorage" + g, ty, fn, recv, item.replace("{K}", t), t, "V",
                        "&'a mut V" if g != "Into" else "V", "Storage<V>")
        for g, ty, fn, recv, item in MAP_ITERS)
    return f"""@ mod shapes::of_{t}
use crate::map::entry::Entry;
use crate::map::storage::*;
use crate::order::*;
use core::marker::PhantomData;
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct Storage<V> {{ p: PhantomData<V> }}
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct Vacant<'a, V> {{ p: PhantomData<&'a mut V> }}
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct Occupied<'a, V> {{ p: PhantomData<&'a mut V> }}
impl<'a, V> VacantEntry<'a, {t}, V> for Vacant<'a, V> {{
    uninterp spec fn wf(&self) -> bool;
    uninterp spec fn key_(&self) -> {t};
    #[verifier::prophetic]
    uninterp spec fn fin_(&self) -> Option<V>;
    #[verifier::external_body] fn key(&self) -> {t} {{ unimplemented!() }}
    #[verifier::external_body] fn insert(self, value: V) -> &'a mut V {{ unimplemented!() }}
}}
impl<'a, V> OccupiedEntry<'a, {t}, V> for Occupied<'a, V> {{
    uninterp spec fn wf(&self) -> bool;
    uninterp spec fn key_(&self) -> {t};
    uninterp spec fn val_(&self) -> V;
    #[verifier::prophetic]
    uninterp spec fn fin_(&self) -> Option<V>;
    #[verifier::external_body] fn key(&self) -> {t} {{ unimplemented!() }}
    #[verifier::external_body] fn get(&self) -> &V {{ unimplemented!() }}
    #[verifier::external_body] fn get_mut(&mut self) -> &mut V {{ unimplemented!() }}
    #[verifier::external_body] fn into_mut(self) -> &'a mut V {{ unimplemented!() }}
    #[verifier::external_body] fn insert(&mut self, value: V) -> V {{ unimplemented!() }}
    #[verifier::external_body] fn remove(self) -> V {{ unimplemented!() }}
}}
impl<V> MapStorage<{t}, V> for Storage<V> {{
    uninterp spec fn at(&self, k: {t}) -> Option<V>;
    uninterp spec fn count(&self) -> nat;
    uninterp spec fn wf(&self) -> bool;
    #[verifier::external_body] proof fn lemma_count(&self) {{}}
    #[verifier::external_body] fn empty() -> Self {{ unimplemented!() }}
    #[verifier::external_body] fn len(&self) -> usize {{ unimplemented!() }}
    #[verifier::external_body] fn is_empty(&self) -> bool {{ unimplemented!() }}
    #[verifier::external_body] fn insert(&mut self, key: {t}, value: V) -> Option<V> {{ unimplemented!() }}
    #[verifier::external_body] fn contains_key(&self, key: {t}) -> bool {{ unimplemented!() }}
    #[verifier::external_body] fn get(&self, key: {t}) -> Option<&V> {{ unimplemented!() }}
    #[verifier::external_body] fn get_mut(&mut self, key: {t}) -> Option<&mut V> {{ unimplemented!() }}
    #[verifier::external_body] fn remove(&mut self, key: {t}) -> Option<V> {{ unimplemented!() }}
    #[verifier::external_body] fn clear(&mut self) {{ unimplemented!() }}
    #[verifier::external_body] fn retain<F>(&mut self, f: F) where F: FnMut({t}, &mut V) -> bool {{ unimplemented!() }}
}}
impl<'this, V> MapStorageEntry<'this, {t}, V> for Storage<V> where V: 'this {{
    type Occupied = Occupied<'this, V>;
    type Vacant = Vacant<'this, V>;
    #[verifier::external_body] fn entry(&'this mut self, key: {t}) -> Entry<'this, Self, {t}, V> {{ unimplemented!() }}
}}
impl<V> crate::key::Key<V> for {t} {{
    type MapStorage = Storage<V>;
}}
impl<V> MapStorageSeq<{t}, V> for Storage<V> {{
    uninterp spec fn lt(a: {t}, b: {t}) -> bool;
    uninterp spec fn seq(&self) -> Seq<({t}, V)>;
    uninterp spec fn pos(&self, k: {t}) -> int;
    #[verifier::external_body] proof fn lemma_lt(a: {t}, b: {t}, c: {t}) {{}}
    #[verifier::external_body] proof fn lemma_seq(&self) {{}}
}}
{iters}
@ opaque {t}"""


def bits_module(w):
    """What is proved once of the words of w bits."""
    t = f"u{w}"
    zeros = " && ".join(f"x & {hex(1 << i)}{t} == 0" for i in range(w))
    each = "\n".join(f"    assert(1{t} << {i}{t} == {hex(1 << i)}{t}) by (bit_vector);\n    assert(!bit(x, {i}{t}));" for i in range(w))
    return f"""
pub mod bits{w} {{
use vstd::prelude::*;
use crate::one;
broadcast use crate::one_is;
pub open spec fn bit(x: {t}, i: {t}) -> bool {{ x & (1{t} << i) != 0 }}
/// The number of ones in the lowest n bits.
pub open spec fn ones(x: {t}, n: nat) -> nat
    decreases n
{{ if n == 0 {{ 0 }} else {{ ones(x, (n - 1) as nat) + one(bit(x, (n - 1) as {t})) }} }}
pub assume_specification[{t}::count_ones](x: {t}) -> (r: u32)
    ensures r == ones(x, {w});
pub proof fn or(x: {t}, i: {t}, j: {t})
    requires i < {w}, j < {w}
    ensures bit(x | (1{t} << i), j) == (i == j || bit(x, j))
{{ assert(i < {w} && j < {w} ==> ((x | (1{t} << i)) & (1{t} << j) != 0 <==> i == j || x & (1{t} << j) != 0)) by (bit_vector); }}
pub proof fn andnot(x: {t}, i: {t}, j: {t})
    requires i < {w}, j < {w}
    ensures bit(x & !(1{t} << i), j) == (i != j && bit(x, j))
{{ assert(i < {w} && j < {w} ==> ((x & !(1{t} << i)) & (1{t} << j) != 0 <==> i != j && x & (1{t} << j) != 0)) by (bit_vector); }}
pub proof fn zero(j: {t})
    requires j < {w}
    ensures !bit(0, j)
{{ assert(j < {w} ==> 0{t} & (1{t} << j) == 0) by (bit_vector); }}
/// Words with the same bits.
pub proof fn same(x: {t}, y: {t})
    requires forall|j: {t}| j < {w} ==> bit(x, j) == bit(y, j)
    ensures x == y
{{
    let z = x ^ y;
    assert forall|j: {t}| j < {w} implies !bit(z, j) by {{
        assert(bit(x, j) == bit(y, j));
        assert(((x & (1{t} << j) != 0) == (y & (1{t} << j) != 0)) ==> (x ^ y) & (1{t} << j) == 0) by (bit_vector);
    }}
    empty(z);
    assert(x ^ y == 0 ==> x == y) by (bit_vector);
}}
/// Words which differ in one bit at most.
pub proof fn step(x: {t}, y: {t}, i: {t}, n: nat)
    requires i < {w}, n <= {w}, forall|j: {t}| j < {w} && j != i ==> bit(x, j) == bit(y, j)
    ensures ones(y, n) + (if i < n {{ one(bit(x, i)) }} else {{ 0 }}) == ones(x, n) + (if i < n {{ one(bit(y, i)) }} else {{ 0 }})
    decreases n
{{ if n > 0 {{ step(x, y, i, (n - 1) as nat); }} }}
pub proof fn none(x: {t}, n: nat)
    requires n <= {w}
    ensures ones(x, n) == 0 <==> forall|j: {t}| j < n ==> !bit(x, j)
    decreases n
{{ if n > 0 {{ none(x, (n - 1) as nat); assert(((n - 1) as {t}) < n); }} }}
pub proof fn empty(x: {t})
    ensures x == 0 <==> forall|j: {t}| j < {w} ==> !bit(x, j)
{{
    if x == 0 {{
        assert forall|j: {t}| j < {w} implies !bit(x, j) by {{ zero(j); }}
    }}
    if forall|j: {t}| j < {w} ==> !bit(x, j) {{
{each}
    assert({zeros} ==> x == 0) by (bit_vector);
    }}
}}
}}
"""


def bitset(name, m, vs):
    n = len(vs)
    w = width(n)
    t = f"u{w}"
    F = hex((1 << n) - 1) + t
    place = ", ".join(f"{name}::{v} => {i}{t}" for i, (v, _) in enumerate(vs))
    inv = " else ".join(f"if i == {i} {{ {name}::{v} }}" for i, (v, _) in enumerate(vs[:-1]))
    inv = f"{inv} else {{ {name}::{vs[-1][0]} }}" if inv else f"{name}::{vs[0][0]}"
    lits = "\n".join(f"assert(1{t} << {i}{t} == {hex(1 << i)}{t}) by (bit_vector);" for i in range(n))

    each = "\n".join(
        f"assert forall|u: {t}, j: {t}| j < {w} implies #[trigger] bit(u | {hex(1 << i)}{t}, j) == (j == {i} || bit(u, j)) by {{ or(u, {i}{t}, j); }}\n"
        f"assert forall|u: {t}| u & !{F} == 0 implies #[trigger] (u | {hex(1 << i)}{t}) & !{F} == 0 by {{ inside(u, {i}{t}); }}"
        for i in range(n))
    retain = f"""@ before <{m}::__SetStorage as SetStorage>::retain
{lits}
{each}
injective();
assert(0{t} & !{F} == 0) by (bit_vector);
assert forall|j: {t}| j < {w} implies !#[trigger] bit(0, j) by {{ zero(j); }}
"""

    def both(f, op):
        return f"""@ before <{m}::__SetStorage as SetStorage>::{f}
let i = place($1);
let x = self.data;
let y = {op};
{'or' if f == 'insert' else 'andnot'}_all(x, i);
inside(x, i);
step(x, y, i, {w});
injective();
"""
    return f"""use crate::bits{w}::*;
pub open spec fn place(k: {name}) -> {t} {{ match k {{ {place} }} }}
pub open spec fn key_at(i: {t}) -> {name} {{ {inv} }}
pub proof fn injective()
    ensures forall|k: {name}| key_at(#[trigger] place(k)) == k, forall|k: {name}| #[trigger] place(k) < {n},
        forall|i: {t}| i < {n} ==> place(#[trigger] key_at(i)) == i
{{}}
pub proof fn or_all(x: {t}, i: {t})
    requires i < {n}
    ensures forall|j: {t}| j < {w} ==> #[trigger] bit(x | (1{t} << i), j) == (i == j || bit(x, j))
{{ assert forall|j: {t}| j < {w} implies #[trigger] bit(x | (1{t} << i), j) == (i == j || bit(x, j)) by {{ or(x, i, j); }} }}
pub proof fn andnot_all(x: {t}, i: {t})
    requires i < {n}
    ensures forall|j: {t}| j < {w} ==> #[trigger] bit(x & !(1{t} << i), j) == (i != j && bit(x, j))
{{ assert forall|j: {t}| j < {w} implies #[trigger] bit(x & !(1{t} << i), j) == (i != j && bit(x, j)) by {{ andnot(x, i, j); }} }}
pub proof fn inside(x: {t}, i: {t})
    requires i < {n}, x & !{F} == 0
    ensures (x | (1{t} << i)) & !{F} == 0, (x & !(1{t} << i)) & !{F} == 0
{{ assert(i < {n} && x & !{F} == 0 ==> (x | (1{t} << i)) & !{F} == 0 && (x & !(1{t} << i)) & !{F} == 0) by (bit_vector); }}
pub proof fn outside(x: {t})
    requires x & !{F} == 0
    ensures forall|j: {t}| {n} <= j < {w} ==> !#[trigger] bit(x, j)
{{ assert forall|j: {t}| {n} <= j < {w} implies !#[trigger] bit(x, j) by {{
    assert(x & !{F} == 0 && {n} <= j && j < {w} ==> x & (1{t} << j) == 0) by (bit_vector); }} }}
@ fn {m}::to_bits
    ensures r == 1{t} << place($1)
@ before {m}::to_bits
{lits}
{both('insert', f'x | (1{t} << i)')}{both('remove', f'x & !(1{t} << i)')}@ before <{m}::__SetStorage as SetStorage>::empty
empty(0); none(0, {w}); injective();
assert(0{t} & !{F} == 0) by (bit_vector);
@ before <{m}::__SetStorage as SetStorage>::clear
empty(0); none(0, {w}); injective();
assert(0{t} & !{F} == 0) by (bit_vector);
@ before <{m}::__SetStorage as SetStorage>::is_empty
empty(self.data); none(self.data, {w});
@ impl RawStorage for {m}::__SetStorage
    closed spec fn rwf(&self) -> bool {{ self.data & !{F} == 0 }}
    closed spec fn raw_(&self) -> {t} {{ self.data }}
    closed spec fn kept(raw: {t}) -> {t} {{ raw & {F} }}
@ before <{m}::__SetStorage as RawStorage>::from_raw
let x = $1;
assert((x & {F}) & !{F} == 0) by (bit_vector);
@ mod {m}
use crate::raw::RawStorage as _;
use crate::set::storage::SetStorage as _;
/// The raw value of a set has the bit of each of its keys and no other.
pub proof fn lemma_raw(a: __SetStorage)
    requires a.wf()
    ensures a.rwf(), forall|k: {name}| #[trigger] a.has(k) == bit(a.raw_(), place(k)), __SetStorage::kept(a.raw_()) == a.raw_()
{{ let x = a.data; assert(x & !{F} == 0 ==> x & {F} == x) by (bit_vector); }}
/// What is built of a raw value is a set, of the keys whose bits it has.
pub proof fn lemma_from_raw(a: __SetStorage, raw: {t})
    requires a.rwf(), a.raw_() == __SetStorage::kept(raw)
    ensures a.wf(), forall|k: {name}| #[trigger] a.has(k) == bit(raw, place(k))
{{
    injective();
    assert forall|k: {name}| #[trigger] a.has(k) == bit(raw, place(k)) by {{
        let i = place(k);
        assert(i < {n} ==> ((raw & {F}) & (1{t} << i) != 0 <==> raw & (1{t} << i) != 0)) by (bit_vector);
    }}
}}
/// Different sets have different raw values, equal sets have equal ones.
pub proof fn lemma_distinct(a: __SetStorage, b: __SetStorage)
    requires a.wf(), b.wf()
    ensures a.raw_() == b.raw_() <==> forall|k: {name}| a.has(k) == b.has(k)
{{
    let (x, y) = (a.data, b.data);
    if forall|k: {name}| a.has(k) == b.has(k) {{
        injective(); outside(x); outside(y);
        assert forall|j: {t}| j < {w} implies bit(x, j) == bit(y, j) by {{
            if j < {n} {{ assert(a.has(key_at(j)) == b.has(key_at(j))); }}
        }}
        same(x, y);
    }}
}}
{retain if n <= 9 else f"@ trusted{chr(10)}<{m}::__SetStorage as SetStorage>::retain"}
@ impl SetStorage for {m}::__SetStorage
    closed spec fn has(&self, k: {name}) -> bool {{ bit(self.data, place(k)) }}
    closed spec fn count(&self) -> nat {{ ones(self.data, {w}) }}
    closed spec fn wf(&self) -> bool {{ self.data & !{F} == 0 }}
    proof fn lemma_count(&self) {{
        none(self.data, {w}); injective(); outside(self.data);
        if forall|k: {name}| !#[trigger] self.has(k) {{
            assert forall|j: {t}| j < {w} implies !bit(self.data, j) by {{
                if j < {n} {{ assert(!self.has(key_at(j))); }}
            }}
        }}
    }}"""


def set_specs(shapes=None):
    out = []
    put = out.append
    ws = sorted({8} | {width(len(s[2])) for s in SHAPES if s[1] == "bits" and (not shapes or s[0] in shapes)})
    put("@ words\n" + "".join(map(bits_module, ws)))
    for t in OPAQUE:
        put(opaque_set(t))
    for name, kind, vs, _ in SHAPES:
        if shapes and name not in shapes:
            continue
        m = f"shapes::of_{name}"
        n = len(vs)
        put(f"""@ mod {m}
{"broadcast use crate::one_is;" if kind != "unit" else ""}
""")
        if kind == "any":
            has = ", ".join(f"{name}::{v}(k) => self._{i}.has(k)" if c else f"{name}::{v} => self._{i}"
                            for i, (v, c) in enumerate(vs))
            count = " + ".join(f"self._{i}.count()" if c else f"crate::one(self._{i})" for i, (v, c) in enumerate(vs))
            wf = " && ".join([f"self._{i}.wf()" for i, (v, c) in enumerate(vs) if c])
            lemma = "\n".join(
                f"        self._{i}.lemma_count();\n        assert forall|k: {c}| #[trigger] self._{i}.has(k) == self.has({name}::{v}(k)) by {{}}"
                if c else f"        assert(self.has({name}::{v}) == self._{i});" for i, (v, c) in enumerate(vs))
        elif kind == "unit":
            has = ", ".join(f"{name}::{v} => self.data.{i}" for i, (v, _) in enumerate(vs))
            count = " + ".join(f"crate::one(self.data.{i})" for i in range(n))
            wf = "true"
            for f in "empty insert remove clear".split():
                put(f"@ before <{m}::__SetStorage as SetStorage>::{f}\ncrate::ones();")
            put(f"@ before <{m}::__SetStorage as SetStorage>::is_empty\nreveal(crate::one);")
            put(f"@ before <{m}::__SetStorage as SetStorage>::len\nreveal(crate::one);")
            lemma = "        reveal(crate::one);\n" + "\n".join(
                f"        assert(self.has({name}::{v}) == self.data.{i});" for i, (v, _) in enumerate(vs))
        else:
            put(bitset(name, m, vs))
            continue
        if kind == "any" and all(c in OPAQUE + [None] for _, c in vs):
            for g, ty in (("Iter", "Iter"), ("Into", "IntoIter")):
                composite_iterator(put, m, name, vs, "__SetStorage" + ty, "set",
                                   f"@ emit SetStorage{g} for {m}::__SetStorage")
            put(composite_set_seq(m, name, vs))
        if kind == "any":
            # Its closures capture the predicate, which Verus does not accept.
            put(f"@ trusted\n<{m}::__SetStorage as SetStorage>::retain")
        put(f"""@ impl SetStorage for {m}::__SetStorage
    closed spec fn has(&self, k: {name}) -> bool {{ match k {{ {has} }} }}
    closed spec fn count(&self) -> nat {{ {count} }}
    closed spec fn wf(&self) -> bool {{ {wf} }}
    proof fn lemma_count(&self) {{
{lemma}
    }}""")
    return "\n".join(out) + "\n"


def opaque_set(t):
    iters = (opaque_iterator("SetStorageIter", "Iter", "iter", "&'this self", t, t, "", "&'a u8", "Storage", lives=True)
             + opaque_iterator("SetStorageInto", "IntoIter", "into_iter", "self", t, t, "", "u8", "Storage"))
    return f"""@ mod shapes::of_{t}
use crate::set::storage::*;
use crate::order::*;
use core::marker::PhantomData;
#[verifier::external_body]
pub struct Storage {{ p: u8 }}
impl SetStorage<{t}> for Storage {{
    uninterp spec fn has(&self, k: {t}) -> bool;
    uninterp spec fn count(&self) -> nat;
    uninterp spec fn wf(&self) -> bool;
    #[verifier::external_body] proof fn lemma_count(&self) {{}}
    #[verifier::external_body] fn empty() -> Self {{ unimplemented!() }}
    #[verifier::external_body] fn len(&self) -> usize {{ unimplemented!() }}
    #[verifier::external_body] fn is_empty(&self) -> bool {{ unimplemented!() }}
    #[verifier::external_body] fn insert(&mut self, value: {t}) -> bool {{ unimplemented!() }}
    #[verifier::external_body] fn contains(&self, value: {t}) -> bool {{ unimplemented!() }}
    #[verifier::external_body] fn remove(&mut self, value: {t}) -> bool {{ unimplemented!() }}
    #[verifier::external_body] fn retain<F>(&mut self, f: F) where F: FnMut({t}) -> bool {{ unimplemented!() }}
    #[verifier::external_body] fn clear(&mut self) {{ unimplemented!() }}
}}
impl crate::key::Key for {t} {{
    type SetStorage = Storage;
}}
impl SetStorageSeq<{t}> for Storage {{
    uninterp spec fn lt(a: {t}, b: {t}) -> bool;
    uninterp spec fn seq(&self) -> Seq<{t}>;
    uninterp spec fn pos(&self, k: {t}) -> int;
    #[verifier::external_body] proof fn lemma_lt(a: {t}, b: {t}, c: {t}) {{}}
    #[verifier::external_body] proof fn lemma_seq(&self) {{}}
}}
{iters}
@ opaque {t}"""


def specification(kind, only=None):
    """The contracts of the maps or of the sets, library and shapes."""
    import os
    here = os.path.dirname(os.path.abspath(__file__))
    text = open(f"{here}/{kind}.vrs").read().replace("%IT%", open(f"{here}/it.rs").read())
    text = text.replace("%HASHBROWN%", open(f"{here}/hashbrown_{kind}.rs").read())
    text = text.replace("%SERDE%", open(f"{here}/serde_{kind}.rs").read())
    text += {"maps": map_specs, "sets": set_specs}[kind](only)
    if kind == "sets":
        # The items of sets are keys, which are the same when they are equal.
        text = re.sub(r"(    /// Mutable references are.*\n)?    #\[verifier::prophetic\]\n    (open )?spec fn same\(.*\n", "", text)
        text = text.replace(",\n            Self::exact() ==> forall|a: Self::Item, b: Self::Item| #[trigger] Self::IntoIter::same(a, b) ==> a == b", "")
        text = re.sub(r"    open spec fn same\(.*\n", "", text)
        text = text.replace("Self::same(x, old(self).rest()[0])", "x == old(self).rest()[0]")
        text = text.replace("Self::same(x, old(self).rest()[final(self).rest().len() as int])",
                            "x == old(self).rest()[final(self).rest().len() as int]")
    return text


if __name__ == "__main__":
    # shapes.py DIR [SHAPE...]: the specifications. shapes.py --lib: the key types.
    import sys
    if sys.argv[1:] == ["--lib"]:
        print(lib(), end="")
    else:
        for kind in ("maps", "sets"):
            open(f"{sys.argv[1]}/{kind}_all.vrs", "w").write(specification(kind, sys.argv[2:]))
