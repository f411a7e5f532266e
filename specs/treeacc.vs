@file crates/localiser/src/tree.rs
@fn Tree::length
    ensures *r == self.lengths,
@fn Tree::has_grammar
    ensures r == self.has_grammar,
@fn Tree::node_type
    requires *node_index < self.nodes@.len(),
    ensures *r == nv(self.nodes@)[*node_index as int].typ,
@fn Tree::children
    requires *node_index < self.nodes@.len(), nv(self.nodes@)[*node_index as int].children is Some,
    ensures r@ == kids(nv(self.nodes@), *node_index),
@fn Tree::first
    requires *node_index < self.nodes@.len(), nv(self.nodes@)[*node_index as int].children is Some,
    ensures match r { Some(x) => kids(nv(self.nodes@), *node_index).len() > 0 && *x == kids(nv(self.nodes@), *node_index)[0], None => kids(nv(self.nodes@), *node_index).len() == 0 },
@fn Tree::last
    requires *node_index < self.nodes@.len(), nv(self.nodes@)[*node_index as int].children is Some,
    ensures match r { Some(x) => kids(nv(self.nodes@), *node_index).len() > 0 && *x == kids(nv(self.nodes@), *node_index).last(), None => kids(nv(self.nodes@), *node_index).len() == 0 },
@fn Tree::tokens
    requires *node_index < self.nodes@.len(),
    ensures match r { Some(x) => nv(self.nodes@)[*node_index as int].toks == Some(x@), None => nv(self.nodes@)[*node_index as int].toks is None },
@fn Tree::token
    requires *token_index < self.tokens@.len(),
    ensures *r == self.tokens@[*token_index as int],
