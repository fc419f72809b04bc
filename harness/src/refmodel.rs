//! Reference Merkle Patricia trie.
//!
//! A reference trie is always built in one go from its complete contents, so
//! there is no insert or delete logic here. Encoding and hashing follow the
//! yellow paper (appendices B, C and D) and share no code with the library.

use std::{
    collections::{hash_map::DefaultHasher, BTreeMap, HashMap},
    fmt,
    hash::{Hash, Hasher as _},
    sync::Arc,
};

use eth_trie_utils::{
    nibbles::Nibbles,
    partial_trie::{Node, PartialTrie, WrappedNode},
    trie_ops::ValOrHash,
};
use ethereum_types::{H256, U512};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use tiny_keccak::{Hasher, Keccak};

/// A key as a plain list of nibbles. Written as a string of hex digits.
#[derive(Clone, Default, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub struct Key(pub Vec<u8>);

impl fmt::Debug for Key {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "\"{}\"", self.digits())
    }
}

impl Key {
    pub fn digits(&self) -> String {
        self.0
            .iter()
            .map(|n| char::from_digit(*n as u32, 16).unwrap_or('?'))
            .collect()
    }

    pub fn from_digits(s: &str) -> Option<Self> {
        s.chars()
            .map(|c| c.to_digit(16).map(|d| d as u8))
            .collect::<Option<Vec<_>>>()
            .map(Key)
    }

    pub fn is_prefix_of(&self, other: &Key) -> bool {
        other.0.starts_with(&self.0)
    }

    pub fn nib(&self) -> Nibbles {
        nib(&self.0)
    }
}

impl Serialize for Key {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.digits())
    }
}

impl<'de> Deserialize<'de> for Key {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        Key::from_digits(&s).ok_or_else(|| serde::de::Error::custom("bad key"))
    }
}

/// Packs nibbles into the library's key type without calling into the library.
pub fn nib(ns: &[u8]) -> Nibbles {
    assert!(ns.len() <= 128);
    let mut bytes = [0u8; 64];
    for (i, n) in ns.iter().rev().enumerate() {
        bytes[63 - i / 2] |= n << (4 * (i % 2));
    }

    Nibbles {
        count: ns.len(),
        packed: U512::from_big_endian(&bytes),
    }
}

/// Unpacks the library's key type without calling into the library. Fails if
/// bits above the stated count are set, since these are documented to be zero.
pub fn unnib(n: &Nibbles) -> Result<Vec<u8>, String> {
    if n.count > 128 {
        return Err(format!("nibble count is {}", n.count));
    }
    let mut bytes = [0u8; 64];
    n.packed.to_big_endian(&mut bytes);
    let digits: Vec<u8> = bytes.iter().flat_map(|b| [b >> 4, b & 0xf]).collect();
    let (unused, used) = digits.split_at(128 - n.count);
    if unused.iter().any(|d| *d != 0) {
        return Err(format!(
            "bits above the count of {} nibbles are set: {:x}",
            n.count, n.packed
        ));
    }

    Ok(used.to_vec())
}

pub fn unkey(n: &Nibbles) -> Result<Key, String> {
    unnib(n).map(Key)
}

pub fn keccak(b: &[u8]) -> [u8; 32] {
    let mut k = Keccak::v256();
    let mut out = [0; 32];
    k.update(b);
    k.finalize(&mut out);
    out
}

#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub enum Entry {
    Val(Vec<u8>),
    Hash([u8; 32]),
}

impl Entry {
    pub fn to_lib(&self) -> ValOrHash {
        match self {
            Entry::Val(v) => ValOrHash::Val(v.clone()),
            Entry::Hash(h) => ValOrHash::Hash(H256(*h)),
        }
    }

    pub fn from_lib(v: &ValOrHash) -> Self {
        match v {
            ValOrHash::Val(v) => Entry::Val(v.clone()),
            ValOrHash::Hash(h) => Entry::Hash(h.0),
        }
    }

    pub fn is_hash(&self) -> bool {
        matches!(self, Entry::Hash(_))
    }
}

pub type Contents = BTreeMap<Key, Entry>;

#[derive(Clone, Eq, Hash, PartialEq)]
pub enum RefNode {
    Empty,
    Hash([u8; 32]),
    Branch(Box<[RefNode; 16]>, Vec<u8>),
    Ext(Vec<u8>, Box<RefNode>),
    Leaf(Vec<u8>, Vec<u8>),
}

fn brief(b: &[u8]) -> String {
    let hex: String = b.iter().take(8).map(|x| format!("{x:02x}")).collect();
    match b.len() {
        0..=8 => hex,
        n => format!("{hex}..[{n}]"),
    }
}

impl fmt::Debug for RefNode {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            RefNode::Empty => write!(f, "Empty"),
            RefNode::Hash(h) => write!(f, "Hash({})", brief(h)),
            RefNode::Branch(cs, v) => {
                write!(f, "Branch(")?;
                for (i, c) in cs.iter().enumerate() {
                    if *c != RefNode::Empty {
                        write!(f, "{i:x}:{c:?} ")?;
                    }
                }
                write!(f, "v:{})", brief(v))
            }
            RefNode::Ext(n, c) => write!(f, "Ext({}, {c:?})", Key(n.clone()).digits()),
            RefNode::Leaf(n, v) => write!(f, "Leaf({}, {})", Key(n.clone()).digits(), brief(v)),
        }
    }
}

pub fn hex_prefix(nibbles: &[u8], leaf: bool) -> Vec<u8> {
    let flag = if leaf { 2 } else { 0 };
    let mut digits = Vec::new();
    if nibbles.len() % 2 == 1 {
        digits.push(flag + 1);
    } else {
        digits.push(flag);
        digits.push(0);
    }
    digits.extend_from_slice(nibbles);
    digits.chunks(2).map(|c| c[0] * 16 + c[1]).collect()
}

fn be_len(mut n: usize) -> Vec<u8> {
    let mut out = Vec::new();
    while n > 0 {
        out.insert(0, (n % 256) as u8);
        n /= 256;
    }
    out
}

fn rlp_header(base: u8, len: usize) -> Vec<u8> {
    if len < 56 {
        vec![base + len as u8]
    } else {
        let l = be_len(len);
        let mut out = vec![base + 55 + l.len() as u8];
        out.extend(l);
        out
    }
}

pub fn rlp_bytes(b: &[u8]) -> Vec<u8> {
    if b.len() == 1 && b[0] < 0x80 {
        return b.to_vec();
    }
    let mut out = rlp_header(0x80, b.len());
    out.extend_from_slice(b);
    out
}

fn rlp_list(items: &[Vec<u8>]) -> Vec<u8> {
    let len = items.iter().map(|i| i.len()).sum();
    let mut out = rlp_header(0xc0, len);
    for i in items {
        out.extend_from_slice(i);
    }
    out
}

/// The child slot of a branch or extension.
fn child_ref(n: &RefNode) -> Vec<u8> {
    match n {
        RefNode::Hash(h) => rlp_bytes(h),
        _ => {
            let e = n.encode();
            if e.len() < 32 {
                e
            } else {
                rlp_bytes(&keccak(&e))
            }
        }
    }
}

impl RefNode {
    /// The trie with these contents. A hash entry sits exactly at its key; no
    /// other entry may lie at or below it.
    pub fn build(contents: &Contents) -> RefNode {
        let es: Vec<(&[u8], &Entry)> = contents.iter().map(|(k, e)| (k.0.as_slice(), e)).collect();
        Self::build_rec(&es)
    }

    fn build_rec(es: &[(&[u8], &Entry)]) -> RefNode {
        match es {
            [] => RefNode::Empty,
            [(rest, Entry::Val(v))] => RefNode::Leaf(rest.to_vec(), v.clone()),
            [(rest, Entry::Hash(h))] => match rest.is_empty() {
                true => RefNode::Hash(*h),
                false => RefNode::Ext(rest.to_vec(), Box::new(RefNode::Hash(*h))),
            },
            _ => {
                let first = es[0].0;
                let last = es[es.len() - 1].0; // sorted, so the common prefix of all
                let common = first.iter().zip(last).take_while(|(a, b)| a == b).count();
                let cut: Vec<(&[u8], &Entry)> =
                    es.iter().map(|(k, e)| (&k[common..], *e)).collect();
                let branch = Self::build_branch(&cut);
                match common {
                    0 => branch,
                    _ => RefNode::Ext(first[..common].to_vec(), Box::new(branch)),
                }
            }
        }
    }

    fn build_branch(es: &[(&[u8], &Entry)]) -> RefNode {
        let mut value = Vec::new();
        let mut groups: Vec<Vec<(&[u8], &Entry)>> = vec![Vec::new(); 16];
        for (k, e) in es {
            match k.split_first() {
                None => match e {
                    Entry::Val(v) => value = v.clone(),
                    Entry::Hash(_) => panic!("model: an entry lies below a hash entry"),
                },
                Some((n, rest)) => groups[*n as usize].push((rest, e)),
            }
        }
        let children: Vec<RefNode> = groups.iter().map(|g| Self::build_rec(g)).collect();
        RefNode::Branch(Box::new(children.try_into().unwrap()), value)
    }

    /// Reads the structure of a library trie through its public node type.
    pub fn of<N: PartialTrie>(n: &Node<N>) -> Result<RefNode, String> {
        Ok(match n {
            Node::Empty => RefNode::Empty,
            Node::Hash(h) => RefNode::Hash(h.0),
            Node::Branch { children, value } => {
                let cs = children
                    .iter()
                    .map(|c| Self::of::<N>(c))
                    .collect::<Result<Vec<_>, _>>()?;
                RefNode::Branch(Box::new(cs.try_into().unwrap()), value.clone())
            }
            Node::Extension { nibbles, child } => {
                RefNode::Ext(unnib(nibbles)?, Box::new(Self::of::<N>(child)?))
            }
            Node::Leaf { nibbles, value } => RefNode::Leaf(unnib(nibbles)?, value.clone()),
        })
    }

    /// Builds a library trie of this very structure out of public node values.
    /// In half of the tries, equal sub-tries are one and the same object.
    pub fn to_lib<N: PartialTrie>(&self) -> N {
        let mut h = DefaultHasher::new();
        Hash::hash(self, &mut h);
        let mut made = (h.finish() & 1 == 1).then(HashMap::new);
        N::new(self.to_lib_node(&mut made))
    }

    fn to_lib_node<'a, N: PartialTrie>(
        &'a self,
        made: &mut Option<HashMap<&'a RefNode, WrappedNode<N>>>,
    ) -> Node<N> {
        match self {
            RefNode::Empty => Node::Empty,
            RefNode::Hash(h) => Node::Hash(H256(*h)),
            RefNode::Branch(cs, v) => {
                let children: Vec<_> = cs.iter().map(|c| c.to_lib_child(made)).collect();
                Node::Branch {
                    children: children.try_into().unwrap(),
                    value: v.clone(),
                }
            }
            RefNode::Ext(n, c) => Node::Extension {
                nibbles: nib(n),
                child: c.to_lib_child(made),
            },
            RefNode::Leaf(n, v) => Node::Leaf {
                nibbles: nib(n),
                value: v.clone(),
            },
        }
    }

    fn to_lib_child<'a, N: PartialTrie>(
        &'a self,
        made: &mut Option<HashMap<&'a RefNode, WrappedNode<N>>>,
    ) -> WrappedNode<N> {
        if let Some(n) = made.as_ref().and_then(|m| m.get(self)) {
            return n.clone();
        }
        let n: WrappedNode<N> = Arc::new(Box::new(N::new(self.to_lib_node(made))));
        if let Some(m) = made {
            m.insert(self, n.clone());
        }
        n
    }

    /// RLP node encoding. A hash node has none, it only knows its digest.
    pub fn encode(&self) -> Vec<u8> {
        match self {
            RefNode::Empty => vec![0x80],
            RefNode::Hash(_) => panic!("model: a hash node has no encoding"),
            RefNode::Branch(cs, v) => {
                let mut items: Vec<Vec<u8>> = cs.iter().map(child_ref).collect();
                items.push(rlp_bytes(v));
                rlp_list(&items)
            }
            RefNode::Ext(n, c) => rlp_list(&[rlp_bytes(&hex_prefix(n, false)), child_ref(c)]),
            RefNode::Leaf(n, v) => rlp_list(&[rlp_bytes(&hex_prefix(n, true)), rlp_bytes(v)]),
        }
    }

    pub fn hash(&self) -> [u8; 32] {
        match self {
            RefNode::Hash(h) => *h,
            _ => keccak(&self.encode()),
        }
    }

    /// Whether a parent refers to this node by hash.
    pub fn is_large(&self) -> bool {
        match self {
            RefNode::Hash(_) => true,
            _ => self.encode().len() >= 32,
        }
    }

    pub fn type_name(&self) -> &'static str {
        match self {
            RefNode::Empty => "Empty",
            RefNode::Hash(_) => "Hash",
            RefNode::Branch(..) => "Branch",
            RefNode::Ext(..) => "Extension",
            RefNode::Leaf(..) => "Leaf",
        }
    }

    /// Entries in the order of a depth-first walk, a branch's own value last.
    pub fn entries_in_order(&self) -> Vec<(Key, Entry)> {
        let mut out = Vec::new();
        self.entries_rec(&mut Vec::new(), &mut out);
        out
    }

    fn entries_rec(&self, at: &mut Vec<u8>, out: &mut Vec<(Key, Entry)>) {
        match self {
            RefNode::Empty => (),
            RefNode::Hash(h) => out.push((Key(at.clone()), Entry::Hash(*h))),
            RefNode::Branch(cs, v) => {
                for (i, c) in cs.iter().enumerate() {
                    at.push(i as u8);
                    c.entries_rec(at, out);
                    at.pop();
                }
                if !v.is_empty() {
                    out.push((Key(at.clone()), Entry::Val(v.clone())));
                }
            }
            RefNode::Ext(n, c) => {
                at.extend(n);
                c.entries_rec(at, out);
                at.truncate(at.len() - n.len());
            }
            RefNode::Leaf(n, v) => {
                let mut k = at.clone();
                k.extend(n);
                out.push((Key(k), Entry::Val(v.clone())));
            }
        }
    }

    pub fn contents(&self) -> Contents {
        self.entries_in_order().into_iter().collect()
    }

    /// All non-empty nodes with the key prefix they sit at, parents first.
    pub fn nodes(&self) -> Vec<(Vec<u8>, &RefNode)> {
        let mut out = Vec::new();
        self.nodes_rec(Vec::new(), &mut out);
        out
    }

    fn nodes_rec<'a>(&'a self, at: Vec<u8>, out: &mut Vec<(Vec<u8>, &'a RefNode)>) {
        if *self == RefNode::Empty {
            return;
        }
        out.push((at.clone(), self));
        match self {
            RefNode::Branch(cs, _) => {
                for (i, c) in cs.iter().enumerate() {
                    let mut p = at.clone();
                    p.push(i as u8);
                    c.nodes_rec(p, out);
                }
            }
            RefNode::Ext(n, c) => {
                let mut p = at;
                p.extend(n);
                c.nodes_rec(p, out);
            }
            _ => (),
        }
    }

    /// Replaces nodes chosen by `pick` (called parents first, not below a
    /// replaced node) by hash nodes.
    pub fn hash_out(
        &self,
        at: &mut Vec<u8>,
        pick: &mut impl FnMut(&[u8], &RefNode) -> bool,
    ) -> RefNode {
        if *self == RefNode::Empty {
            return RefNode::Empty;
        }
        if pick(at, self) {
            return RefNode::Hash(self.hash());
        }
        match self {
            RefNode::Branch(cs, v) => {
                let mut out = Vec::new();
                for (i, c) in cs.iter().enumerate() {
                    at.push(i as u8);
                    out.push(c.hash_out(at, pick));
                    at.pop();
                }
                RefNode::Branch(Box::new(out.try_into().unwrap()), v.clone())
            }
            RefNode::Ext(n, c) => {
                at.extend(n);
                let child = c.hash_out(at, pick);
                at.truncate(at.len() - n.len());
                RefNode::Ext(n.clone(), Box::new(child))
            }
            other => other.clone(),
        }
    }

    /// First place where the structure is not canonical.
    pub fn canonical_error(&self) -> Option<String> {
        for (at, n) in self.nodes() {
            let at = Key(at).digits();
            match n {
                RefNode::Ext(ns, c) => {
                    if ns.is_empty() {
                        return Some(format!("empty extension at '{at}'"));
                    }
                    if !matches!(**c, RefNode::Branch(..) | RefNode::Hash(_)) {
                        return Some(format!("extension at '{at}' leads to {}", c.type_name()));
                    }
                }
                RefNode::Branch(cs, v) => {
                    let used = cs.iter().filter(|c| **c != RefNode::Empty).count();
                    if used + usize::from(!v.is_empty()) < 2 {
                        return Some(format!("branch at '{at}' holds fewer than two entries"));
                    }
                }
                _ => (),
            }
        }
        None
    }

    /// The nodes that a lookup of `key` visits, root first (`Empty` included),
    /// each with the key prefix consumed before it.
    pub fn visit<'a>(&'a self, key: &[u8]) -> Vec<(Vec<u8>, &'a RefNode)> {
        let mut out = Vec::new();
        let mut node = self;
        let mut used = 0;
        loop {
            out.push((key[..used].to_vec(), node));
            let rest = &key[used..];
            match node {
                RefNode::Branch(cs, _) if !rest.is_empty() => {
                    node = &cs[rest[0] as usize];
                    used += 1;
                }
                RefNode::Ext(n, c) if rest.starts_with(n) => {
                    node = c;
                    used += n.len();
                }
                _ => return out,
            }
        }
    }

    pub fn get(&self, key: &[u8]) -> Option<&[u8]> {
        let path = self.visit(key);
        let (at, node) = path.last().unwrap();
        let rest = &key[at.len()..];
        match node {
            RefNode::Branch(_, v) if rest.is_empty() && !v.is_empty() => Some(v),
            RefNode::Leaf(n, v) if n == rest => Some(v),
            _ => None,
        }
    }

    /// Whether the lookup path of `key` ends at a hash node, and if so, whether
    /// the key goes on below it.
    pub fn hits_hash(&self, key: &[u8]) -> Option<bool> {
        let path = self.visit(key);
        let (at, node) = path.last().unwrap();
        matches!(node, RefNode::Hash(_)).then(|| at.len() < key.len())
    }

    pub fn depth(&self) -> usize {
        match self {
            RefNode::Branch(cs, _) => 1 + cs.iter().map(|c| c.depth()).max().unwrap_or(0),
            RefNode::Ext(_, c) => 1 + c.depth(),
            _ => 0,
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;

    fn contents(es: &[(&str, &[u8])]) -> Contents {
        es.iter()
            .map(|(k, v)| (Key::from_digits(k).unwrap(), Entry::Val(v.to_vec())))
            .collect()
    }

    fn bytes_key(b: &[u8]) -> String {
        b.iter().map(|x| format!("{x:02x}")).collect()
    }

    fn hex(b: &[u8]) -> String {
        b.iter().map(|x| format!("{x:02x}")).collect()
    }

    // From ethereum/tests TrieTests/trieanyorder.json.
    #[test]
    fn official_vectors() {
        let c = contents(&[
            (&bytes_key(b"doe"), b"reindeer"),
            (&bytes_key(b"dog"), b"puppy"),
            (&bytes_key(b"dogglesworth"), b"cat"),
        ]);
        assert_eq!(
            hex(&RefNode::build(&c).hash()),
            "8aad789dff2f538bca5d8ea56e8abe10f4c7ba3a5dea95fea4cd6e7c3a1168d3"
        );
        let c = contents(&[
            (&bytes_key(b"do"), b"verb"),
            (&bytes_key(b"horse"), b"stallion"),
            (&bytes_key(b"doge"), b"coin"),
            (&bytes_key(b"dog"), b"puppy"),
        ]);
        assert_eq!(
            hex(&RefNode::build(&c).hash()),
            "5991bb8c6514148a29db676a14ac506cd2cd5775ace63c30a4fe457715e9ac84"
        );
        assert_eq!(
            hex(&RefNode::Empty.hash()),
            "56e81f171bcc55a6ff8345e692c0f86e5b48e01b996cadc001622fb5e363b421"
        );
        let c = contents(&[(&bytes_key(b"A"), &[b'a'; 50])]);
        assert_eq!(
            hex(&RefNode::build(&c).hash()),
            "d23786fb4a010da3ce639d66d5e904a11dbc02746d1ce25029e53290cabf28ab"
        );
    }
}
