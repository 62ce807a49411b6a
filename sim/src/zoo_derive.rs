//! Derived types of every supported shape. Each evaluates a `tick` expression whenever its schema code runs.
#![allow(dead_code)]

use std::cell::RefCell;
use std::collections::*;

use opg::*;
use serde::Serialize;

use crate::rt::*;

thread_local! {
    static TICKS: RefCell<Vec<BTreeMap<&'static str, u64>>> = const { RefCell::new(Vec::new()) };
    static TOTAL: RefCell<(u64, u64)> = const { RefCell::new((0, u64::MAX)) };
    static SALT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// The expression embedded in the derived types.
pub fn tick(name: &'static str) -> String {
    TICKS.with(|t| {
        if let Some(top) = t.borrow_mut().last_mut() {
            *top.entry(name).or_insert(0) += 1;
        }
    });
    let (total, limit) = TOTAL.with(|t| {
        t.borrow_mut().0 += 1;
        *t.borrow()
    });
    if total > limit {
        fail("unbounded-work", format!("schema code of derived types ran {} times, more than the {} needed", total, limit));
    }
    user_point(&format!("example:{}", name));
    match SALT.with(|s| s.get()) {
        0 => format!("tick of {}", name),
        ODD => String::new(),
        salt if salt == ODD + 1 => "12".to_owned(),
        salt if salt == ODD + 2 => format!(" {}\n ", name),
        salt if salt == ODD + 3 => name.repeat(60),
        salt if salt == ODD + 4 => "null".to_owned(),
        salt => format!("tick of {} in build {}", name, salt),
    }
}

/// From here on: examples with odd texts.
pub const ODD: usize = 1 << 20;

/// Run `f` with examples that tell which build evaluated them.
pub fn salted<R>(salt: usize, f: impl FnOnce() -> R) -> R {
    struct Reset(usize);
    impl Drop for Reset {
        fn drop(&mut self) {
            SALT.with(|s| s.set(self.0));
        }
    }
    let _reset = Reset(SALT.with(|s| s.replace(salt)));
    f()
}

pub fn limit_ticks(limit: u64) {
    TOTAL.with(|t| *t.borrow_mut() = (0, limit));
}

/// Count the ticks evaluated by `f` on this thread.
pub fn ticks<R>(f: impl FnOnce() -> R) -> (R, BTreeMap<&'static str, u64>) {
    TICKS.with(|t| t.borrow_mut().push(BTreeMap::new()));
    struct Pop;
    impl Drop for Pop {
        fn drop(&mut self) {
            if std::thread::panicking() {
                TICKS.with(|t| t.borrow_mut().pop());
            }
        }
    }
    let pop = Pop;
    let result = f();
    std::mem::forget(pop);
    let counts = TICKS.with(|t| t.borrow_mut().pop()).unwrap_or_default();
    (result, counts)
}

#[derive(Serialize, OpgModel)]
#[opg("A leaf")]
pub struct Leaf {
    #[opg(example_with = "tick(\"Leaf\")")]
    tick: String,
    id: i32,
}

#[derive(Serialize, OpgModel)]
pub struct Plain {
    #[opg(example_with = "tick(\"Plain\")")]
    tick: String,
    leaf: Leaf,
    opt: Option<Leaf>,
    boxed: Box<Leaf>,
    list: Vec<Leaf>,
}

#[derive(Serialize, OpgModel)]
#[opg("Inlined everywhere", inline)]
pub struct Inl {
    #[opg(example_with = "tick(\"Inl\")")]
    tick: String,
    leaf: Leaf,
}

#[derive(Serialize, OpgModel)]
pub struct UsesInl {
    #[opg(example_with = "tick(\"UsesInl\")")]
    tick: String,
    a: Inl,
    b: Option<Inl>,
    #[opg("A leaf in place", inline)]
    c: Leaf,
    d: Vec<Inl>,
}

#[derive(Serialize, OpgModel)]
pub struct SelfRef {
    #[opg(example_with = "tick(\"SelfRef\")")]
    tick: String,
    next: Option<Box<SelfRef>>,
    children: Vec<SelfRef>,
    direct: Box<SelfRef>,
}

#[derive(Serialize, OpgModel)]
pub struct MutA {
    #[opg(example_with = "tick(\"MutA\")")]
    tick: String,
    b: Option<Box<MutB>>,
}

#[derive(Serialize, OpgModel)]
pub struct MutB {
    #[opg(example_with = "tick(\"MutB\")")]
    tick: String,
    a: Vec<MutA>,
    leaf: Leaf,
}

#[derive(OpgModel)]
pub struct CycA {
    #[opg(example_with = "tick(\"CycA\")")]
    tick: String,
    b: Box<CycB>,
}

#[derive(OpgModel)]
pub struct CycB {
    #[opg(example_with = "tick(\"CycB\")")]
    tick: String,
    c: HashMap<String, CycC>,
    a: Option<Box<CycA>>,
}

#[derive(OpgModel)]
pub struct CycC {
    #[opg(example_with = "tick(\"CycC\")")]
    tick: String,
    a: (Box<CycA>, Option<Box<CycB>>),
    #[opg(inline)]
    plain: Plain,
}

#[derive(Serialize, OpgModel)]
#[opg("A leaf by another name", example_with = "tick(\"NewTy\")")]
pub struct NewTy(Leaf);

#[derive(Serialize, OpgModel)]
#[opg("A text", format = "text", example_with = "tick(\"NewStr\")")]
pub struct NewStr(String);

#[derive(OpgModel)]
#[opg(example_with = "tick(\"NewOpt\")")]
pub struct NewOpt(Option<Leaf>);

#[derive(OpgModel)]
#[opg(example_with = "tick(\"NewVec\")")]
pub struct NewVec(Vec<Plain>);

#[derive(OpgModel)]
#[opg("Twice removed", example_with = "tick(\"NewNew\")")]
pub struct NewNew(NewTy);

#[derive(OpgModel)]
#[opg(example_with = "tick(\"NewInl\")")]
pub struct NewInl(Inl);

#[derive(Serialize, OpgModel)]
pub struct Tup(Leaf, Option<Plain>, #[opg(example_with = "tick(\"Tup\")")] String, #[opg(inline)] NewTy);

#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
#[opg("Simple")]
pub enum StrEnum {
    FirstOne,
    Second,
}

#[derive(serde_repr::Serialize_repr, OpgModel)]
#[repr(u8)]
pub enum ReprEnum {
    One = 1,
    Two = 2,
}

#[derive(Serialize, OpgModel)]
#[opg("External")]
pub enum ExtEnum {
    Unit,
    #[opg("A variant")]
    New(Leaf),
    Tuple(Leaf, Vec<Plain>),
    Struct {
        #[opg(example_with = "tick(\"ExtEnum\")")]
        tick: String,
        a: Option<Box<SelfRef>>,
    },
    #[opg(inline)]
    Inlined(NewTy),
}

#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename_all = "snake_case")]
pub enum IntEnum {
    Unit,
    New(IntBody),
    StructLike {
        #[opg(example_with = "tick(\"IntEnum\")")]
        tick: String,
        body: IntBody,
    },
}

#[derive(Serialize, OpgModel)]
pub struct IntBody {
    #[opg(example_with = "tick(\"IntBody\")")]
    tick: String,
    again: Vec<IntEnum>,
    st: StrEnum,
}

#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg("Adjacent")]
pub enum AdjEnum {
    New(IntBody),
    Tuple(#[opg(example_with = "tick(\"AdjEnum\")")] String, StrEnum),
    #[serde(skip)]
    Gone(IntBody, IntBody, IntBody),
}

#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum Untagged {
    New(Option<StrEnum>),
    Struct {
        #[opg(example_with = "tick(\"Untagged\")")]
        tick: String,
        x: HashMap<String, IntBody>,
    },
}

#[derive(OpgModel)]
pub struct Gen<T> {
    #[opg(example_with = "tick(\"Gen\")")]
    tick: String,
    body: T,
    bodies: Vec<T>,
}

#[derive(Serialize, OpgModel)]
pub struct GenRef<'a, A, B> {
    #[opg(example_with = "tick(\"GenRef\")")]
    tick: &'a str,
    a: &'a A,
    b: Option<&'a B>,
    #[serde(skip)]
    ghost: std::marker::PhantomData<A>,
}

#[derive(Serialize, OpgModel)]
#[serde(rename_all = "kebab-case")]
#[opg("All kinds of fields", nullable)]
pub struct Fields {
    #[opg(example_with = "tick(\"Fields\")")]
    tick: String,
    #[opg(any)]
    anything_goes: String,
    #[opg(integer, format = "i")]
    as_integer: String,
    #[opg(string, "as text")]
    as_string: i32,
    #[opg(number)]
    as_number: String,
    #[opg(boolean)]
    as_boolean: String,
    #[serde(rename = "renamed")]
    #[opg(optional)]
    original: Option<StrEnum>,
    #[serde(skip)]
    skipped: Option<IntBody>,
    #[opg("described at the use", nullable, format = "f", example = "e")]
    described: StrEnum,
    unit: (),
    floats: (f32, f64, bool, char),
}

#[derive(OpgModel)]
pub struct Std {
    #[opg(example_with = "tick(\"Std\")")]
    tick: String,
    id: uuid::Uuid,
    at: chrono::DateTime<chrono::Utc>,
    on: chrono::NaiveDate,
    naive: chrono::NaiveDateTime,
    counter: std::sync::atomic::AtomicU64,
    flag: std::sync::atomic::AtomicBool,
    sizes: (usize, isize, u8, i8, u16, i16, u32, i64, u64),
}

#[derive(OpgModel)]
pub struct Deep {
    #[opg(example_with = "tick(\"Deep\")")]
    tick: String,
    a: Option<Vec<Option<Box<(Leaf, NewStr)>>>>,
    b: BTreeMap<String, HashSet<LinkedList<VecDeque<BinaryHeap<[NewVec; 4]>>>>>,
    c: std::rc::Rc<std::cell::RefCell<Option<std::sync::Arc<NewOpt>>>>,
}

#[derive(OpgModel)]
pub struct UsesEnums {
    #[opg(example_with = "tick(\"UsesEnums\")")]
    tick: String,
    ext: ExtEnum,
    #[opg(inline)]
    int: IntEnum,
    adj: Option<AdjEnum>,
    un: Box<Untagged>,
    st: StrEnum,
    rp: [ReprEnum; 2],
}

#[derive(OpgModel)]
pub enum RecEnum {
    Leaf(Leaf),
    Node(Box<RecEnum>, Box<RecEnum>),
    Opt(Option<Box<RecEnum>>),
    End {
        #[opg(example_with = "tick(\"RecEnum\")")]
        tick: String,
    },
}

#[derive(OpgModel)]
#[opg("Inlined enum", inline)]
pub enum InlEnum {
    A(Leaf),
    B(MutB),
    C {
        #[opg(example_with = "tick(\"InlEnum\")")]
        tick: String,
    },
}

#[derive(OpgModel)]
pub struct UsesInlEnum {
    #[opg(example_with = "tick(\"UsesInlEnum\")")]
    tick: String,
    one: InlEnum,
    many: Vec<InlEnum>,
    optional: Option<InlEnum>,
}

#[derive(Serialize, OpgModel)]
pub struct Diamond {
    #[opg(example_with = "tick(\"Diamond\")")]
    tick: String,
    left: DiamondSide,
    right: DiamondSide2,
}

#[derive(Serialize, OpgModel)]
pub struct DiamondSide {
    #[opg(example_with = "tick(\"DiamondSide\")")]
    tick: String,
    bottom: Plain,
    deep: Box<UsesInl>,
}

#[derive(Serialize, OpgModel)]
pub struct DiamondSide2 {
    #[opg(example_with = "tick(\"DiamondSide2\")")]
    tick: String,
    bottom: Option<Plain>,
    deep: [UsesInl; 3],
}

/// Only used where the type is given explicitly, so its own schema is never part of a document.
#[derive(Serialize)]
pub struct Opaque;

impl OpgModel for Opaque {
    fn get_schema(cx: &mut opg::Components) -> opg::Model {
        let mut model = <String as OpgModel>::get_schema(cx);
        model.description = Some("the schema of an opaque type".to_owned());
        model
    }

    fn type_name() -> Option<std::borrow::Cow<'static, str>> {
        None
    }
}

#[derive(Serialize, OpgModel)]
#[opg("Explicitly a number", number, format = "odd", example_with = "tick(\"NewNum\")")]
pub struct NewNum(Opaque);

#[derive(Serialize, OpgModel)]
pub struct Transp {
    #[opg(example_with = "tick(\"Transp\")")]
    tick: String,
    inner: Vec<MutA>,
}

#[derive(Serialize, OpgModel)]
#[opg("A newtype in place", inline, example_with = "tick(\"InlNew\")")]
pub struct InlNew(#[opg("field first", format = "ff")] String);

#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
#[opg(inline)]
pub enum InlStr {
    FirstOne,
    #[serde(rename = "2nd")]
    SecondOne,
    #[serde(skip)]
    Hidden,
}

#[derive(serde_repr::Serialize_repr, OpgModel)]
#[opg("Numbers", inline)]
#[repr(u8)]
pub enum InlRepr {
    Three = 3,
    Four = 4,
}

#[derive(Serialize, OpgModel)]
#[serde(tag = "tag")]
#[opg("Internal, in place", inline)]
pub enum InlInt {
    #[opg("nothing")]
    Nothing,
    #[opg("a body", example_with = "tick(\"InlInt\")")]
    Body(IntBody),
    #[serde(rename = "obj", rename_all = "camelCase")]
    Object {
        #[serde(skip_serializing_if = "Option::is_none")]
        some_field: Option<Box<RecUse>>,
        #[opg("text", inline)]
        other_field: StrEnum,
    },
}

#[derive(Serialize, OpgModel)]
pub struct RecUse {
    #[opg(example_with = "tick(\"RecUse\")")]
    tick: String,
    int: Option<InlInt>,
    list: Vec<InlStr>,
    rep: InlRepr,
    new: InlNew,
    #[opg(nullable, "a number or null")]
    num: NewNum,
    map: HashMap<String, Transp>,
}

#[derive(Serialize, OpgModel)]
#[serde(tag = "what", content = "data", rename_all = "UPPERCASE")]
#[opg(inline, nullable)]
pub enum InlAdj {
    #[opg("one", inline)]
    One(Leaf),
    Two(#[opg(any)] Opaque, #[opg(inline)] NewStr),
    #[opg("three", format = "x", example_with = "tick(\"InlAdj\")")]
    Three(String),
}

#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg("Anything of these", inline)]
pub enum InlUn {
    #[opg(inline)]
    A(Leaf),
    #[opg("described variant", example_with = "tick(\"InlUn\")")]
    B(f64),
    #[opg("struct variant")]
    C {
        #[opg(optional)]
        left: Plain,
        right: Box<Opt2>,
    },
}

#[derive(Serialize, OpgModel)]
pub struct Opt2 {
    #[opg(example_with = "tick(\"Opt2\")")]
    tick: String,
    #[opg("or nothing", nullable)]
    un: Option<InlUn>,
    #[opg(optional, inline)]
    adj: Option<InlAdj>,
    #[opg(inline)]
    all: Option<Vec<NewNum>>,
    #[opg(example = "seven", format = "word", "with all")]
    word: String,
    #[serde(skip_serializing)]
    hidden: Option<Std>,
}

#[derive(OpgModel)]
pub struct Mixed<'a, T, U: ?Sized>
where
    T: Clone,
{
    #[opg(example_with = "tick(\"Mixed\")")]
    tick: &'a str,
    t: Vec<T>,
    u: &'a U,
    nested: Option<&'a Opt2>,
}

#[derive(Serialize, OpgModel)]
#[opg("External in place", inline, nullable)]
pub enum InlExt {
    #[serde(skip)]
    Gone(Leaf, Leaf),
    #[serde(rename = "st", rename_all = "camelCase")]
    #[opg("described")]
    St {
        #[opg(example_with = "tick(\"InlExt\")")]
        the_tick: String,
        #[opg(inline)]
        leaf: Leaf,
        #[serde(skip)]
        gone: Option<IntBody>,
    },
    #[opg("new in place", inline)]
    New(NewStr),
    Unit,
}

#[derive(Serialize, OpgModel)]
#[opg("Tuple in place", inline, nullable)]
pub struct InlTup(
    #[opg(any)] Opaque,
    #[opg("odd", integer, format = "odd")] Opaque,
    Vec<MutA>,
    #[opg(example_with = "tick(\"InlTup\")")] String,
    Option<StrEnum>,
);

#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum UnMore {
    #[serde(skip)]
    Gone(String, String),
    A(StrEnum),
    B(Option<Box<UnMore>>),
    S {
        #[opg(example_with = "tick(\"UnMore\")")]
        tick: String,
        more: Vec<UnMore>,
    },
}

#[derive(Serialize, OpgModel)]
#[serde(rename_all = "PascalCase")]
pub struct UsesMore {
    #[opg(example_with = "tick(\"UsesMore\")")]
    tick: String,
    ext_one: InlExt,
    ext_list: Option<Vec<InlExt>>,
    tup_one: InlTup,
    #[opg("own words", nullable)]
    tup_opt: Option<InlTup>,
    #[opg(inline)]
    un_more: UnMore,
    un_link: Box<UnMore>,
}

#[derive(OpgModel)]
pub struct Wide {
    #[opg(example_with = "tick(\"Wide\")")]
    tick: String,
    ten: (Leaf, Plain, MutA, StrEnum, NewStr, NewTy, NewNum, Transp, Opt2, Tup),
    five: Option<(Untagged, Leaf, u8, Option<AdjEnum>, Vec<ReprEnum>)>,
    map: BTreeMap<u8, (Inl, Option<Box<Wide>>)>,
}

/// Expressions at every place which takes one.
#[derive(Serialize, OpgModel)]
#[opg("Examples", nullable)]
pub struct Exs {
    #[opg(example_with = "tick(\"Exs\")")]
    tick: String,
    #[opg(integer, format = "i", example_with = "tick(\"Exs.integer\")")]
    as_integer: Opaque,
    #[opg("a number", number, example_with = "tick(\"Exs.number\")")]
    as_number: Opaque,
    #[opg(string, nullable, example_with = "tick(\"Exs.string\")")]
    as_string: Opaque,
    #[opg("an i32", example_with = "tick(\"Exs.int\")")]
    int: i32,
    #[opg(optional, example_with = "tick(\"Exs.optional\")")]
    maybe: Option<f64>,
    #[opg(example_with = "tick(\"Exs.list\")")]
    list: Vec<String>,
    #[opg("links", example_with = "tick(\"Exs.link\")")]
    link: NewStr,
    #[opg(inline, example_with = "tick(\"Exs.copy\")")]
    copy: NewNum,
    #[opg(nullable, example_with = "tick(\"Exs.link2\")")]
    option: Option<Leaf>,
}

#[derive(Serialize, OpgModel)]
#[opg("Integers", integer, example_with = "tick(\"NewInt\")")]
pub struct NewInt(Opaque);

#[derive(Serialize, OpgModel)]
#[opg("Texts", string, nullable, inline, example_with = "tick(\"InlText\")")]
pub struct InlText(Opaque);

#[derive(Serialize, OpgModel)]
pub struct ExTup(
    #[opg("one", integer, example_with = "tick(\"ExTup\")")] Opaque,
    #[opg(example_with = "tick(\"ExTup.1\")")] Option<NewInt>,
    #[opg(inline, example_with = "tick(\"ExTup.2\")")] NewInt,
    #[opg(number, example_with = "tick(\"ExTup.3\")")] Opaque,
    InlText,
);

#[derive(Serialize, OpgModel)]
#[opg("Examples in variants")]
pub enum ExExt {
    #[opg("a", example_with = "tick(\"ExExt\")")]
    A(String),
    B(#[opg(format = "f", example_with = "tick(\"ExExt.B\")")] u64),
    #[opg(inline, example_with = "tick(\"ExExt.C\")")]
    C(NewInt),
    D(#[opg(integer, example_with = "tick(\"ExExt.D\")")] Opaque, #[opg(example_with = "tick(\"ExExt.D1\")")] char),
    E {
        #[opg(number, example_with = "tick(\"ExExt.E\")")]
        e: Opaque,
        #[opg(example_with = "tick(\"ExExt.E1\")")]
        f: Box<ExExt>,
    },
    F,
    G,
    H,
}

#[derive(Serialize, OpgModel)]
#[serde(tag = "type", content = "value")]
#[opg(inline)]
pub enum ExAdj {
    #[opg("a", example_with = "tick(\"ExAdj\")")]
    A(String),
    B(#[opg(string, example_with = "tick(\"ExAdj.B\")")] Opaque),
    C(#[opg(integer, example_with = "tick(\"ExAdj.C\")")] Opaque, #[opg(inline, example_with = "tick(\"ExAdj.C1\")")] NewStr),
    #[opg(example_with = "tick(\"ExAdj.D\")")]
    D(ExTup),
}

#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum ExUn {
    #[opg("a", example_with = "tick(\"ExUn\")")]
    A(Vec<ExAdj>),
    B(#[opg(number, example_with = "tick(\"ExUn.B\")")] Opaque),
    C {
        #[opg(example_with = "tick(\"ExUn.C\")")]
        c: Box<NewStr>,
    },
    D(Exs),
    E(i8),
    F(#[opg(any)] Opaque),
}

#[derive(Serialize, OpgModel)]
#[serde(tag = "of")]
pub enum ExInt {
    #[opg("a", example_with = "tick(\"ExInt\")")]
    A(Exs),
    B(#[opg(example_with = "tick(\"ExInt.B\")")] Leaf),
    C {
        #[opg(string, example_with = "tick(\"ExInt.C\")")]
        c: Opaque,
        d: Option<Vec<ExUn>>,
    },
}

/// Types with many parts.
#[derive(Serialize, OpgModel)]
#[serde(rename_all = "camelCase")]
#[opg("Many fields")]
pub struct BigObj {
    #[opg(example_with = "tick(\"BigObj\")")]
    tick: String,
    r#field_number_00: Leaf,
    #[opg("field 1")]
    r#field_number_01: Option<Plain>,
    r#field_number_02: Vec<MutA>,
    #[serde(skip_serializing_if = "never")]
    r#field_number_03: Box<StrEnum>,
    #[opg(optional)]
    r#field_number_04: HashMap<String, NewStr>,
    r#field_number_05: (NewTy, u8),
    #[opg("field 6")]
    r#field_number_06: NewNum,
    r#field_number_07: Option<Transp>,
    #[serde(skip_serializing_if = "never")]
    r#field_number_08: Vec<Opt2>,
    #[opg(optional)]
    r#field_number_09: Box<Tup>,
    r#field_number_10: HashMap<String, Untagged>,
    #[opg("field 11")]
    r#field_number_11: (AdjEnum, u8),
    r#field_number_12: ReprEnum,
    #[serde(skip_serializing_if = "never")]
    r#field_number_13: Option<Diamond>,
    #[opg(optional)]
    r#field_number_14: Vec<Exs>,
    r#field_number_15: Box<NewInt>,
    #[opg("field 16")]
    r#field_number_16: HashMap<String, ExTup>,
    r#field_number_17: (ExExt, u8),
    #[serde(skip_serializing_if = "never")]
    r#field_number_18: ExUn,
    #[opg(optional)]
    r#field_number_19: Option<ExInt>,
    plain_0: bool,
    plain_1: char,
    plain_2: u8,
    plain_3: i16,
    plain_4: f32,
    plain_5: (),
    plain_6: String,
    plain_7: Option<u64>,
    plain_8: [u8; 16],
    plain_9: i64,
    r#type: Inl,
    another: Option<Vec<Inl>>,
    #[opg(inline)]
    copied: Plain,
}

fn never<T>(_: &T) -> bool {
    false
}

#[derive(Serialize, OpgModel)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
#[opg("Many words")]
pub enum BigStr {
    Word0,
    AnotherWord1,
    A2,
    SomeLongerWordIndeed3,
    Word4,
    AnotherWord5,
    A6,
    SomeLongerWordIndeed7,
    Word8,
    AnotherWord9,
    A10,
    SomeLongerWordIndeed11,
    Word12,
    AnotherWord13,
    A14,
    SomeLongerWordIndeed15,
    Word16,
    AnotherWord17,
    A18,
    SomeLongerWordIndeed19,
    Word20,
    AnotherWord21,
    A22,
    SomeLongerWordIndeed23,
}

#[derive(Serialize, OpgModel)]
#[serde(rename_all = "snake_case")]
pub enum BigExt {
    Tick(#[opg(example_with = "tick(\"BigExt\")")] String),
    VariantNumber0(Leaf),
    Variant1(Plain, Option<MutA>),
    Variant2 { first_field: MutA, second: Vec<BigStr> },
    Unit3,
    VariantNumber4(NewStr),
    Variant5(NewTy, Option<NewNum>),
    Variant6 { first_field: NewNum, second: Vec<BigStr> },
    Unit7,
    VariantNumber8(Opt2),
    Variant9(Tup, Option<Untagged>),
    Variant10 { first_field: Untagged, second: Vec<BigStr> },
    Unit11,
}

#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg("Many alternatives")]
pub enum BigUn {
    Tick(#[opg(example_with = "tick(\"BigUn\")")] String),
    V0(ExInt),
    V1(Option<ExUn>),
    V2 { a: ExExt, b: Option<Box<BigUn>> },
    V3(Option<ExTup>),
    V4(NewInt),
    V5 { a: Exs, b: Option<Box<BigUn>> },
    V6(Diamond),
    V7(Option<ReprEnum>),
    V8 { a: AdjEnum, b: Option<Box<BigUn>> },
    V9(Option<Untagged>),
    V10(Tup),
    V11 { a: Opt2, b: Option<Box<BigUn>> },
}

#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
pub enum BigAdj {
    Tick(#[opg(example_with = "tick(\"BigAdj\")")] String),
    V0(StrEnum),
    V1(NewStr, Vec<BigAdj>),
    V2(NewTy),
    V3(NewNum),
    V4(Transp, Vec<BigAdj>),
    V5(Opt2),
    V6(Tup),
    V7(Untagged, Vec<BigAdj>),
    V8(AdjEnum),
    V9(ReprEnum),
    V10(Diamond, Vec<BigAdj>),
    V11(Exs),
}

#[derive(Serialize, OpgModel)]
#[serde(tag = "kind", rename_all = "kebab-case")]
pub enum BigInt {
    Tick {
        #[opg(example_with = "tick(\"BigInt\")")]
        tick: String,
    },
    VariantNumber0 { a: Leaf, b: Option<BigInt2>, c: u8 },
    VariantNumber1 { a: Plain, b: Option<BigInt2>, c: u8 },
    VariantNumber2 { a: MutA, b: Option<BigInt2>, c: u8 },
    VariantNumber3 { a: StrEnum, b: Option<BigInt2>, c: u8 },
    VariantNumber4 { a: NewStr, b: Option<BigInt2>, c: u8 },
    VariantNumber5 { a: NewTy, b: Option<BigInt2>, c: u8 },
    VariantNumber6 { a: NewNum, b: Option<BigInt2>, c: u8 },
    VariantNumber7 { a: Transp, b: Option<BigInt2>, c: u8 },
    VariantNumber8 { a: Opt2, b: Option<BigInt2>, c: u8 },
    VariantNumber9 { a: Tup, b: Option<BigInt2>, c: u8 },
    Body(IntBody),
}

#[derive(Serialize, OpgModel)]
pub struct BigInt2(
    #[opg(example_with = "tick(\"BigInt2\")")] String,
    Leaf,
    Option<Plain>,
    Vec<MutA>,
    Box<StrEnum>,
    HashMap<String, NewStr>,
    (NewTy, u8),
    #[opg("element 6", inline)] NewNum,
    Option<Transp>,
    Vec<Opt2>,
    Box<Tup>,
    HashMap<String, Untagged>,
    (AdjEnum, u8),
    ReprEnum,
    #[opg("element 13", inline)] Diamond,
);

/// Newtypes around every kind of type.
#[derive(Serialize, OpgModel)]
pub struct NewUn(Untagged);

#[derive(Serialize, OpgModel)]
#[opg("around around")]
pub struct NewUn2(NewUn);

#[derive(Serialize, OpgModel)]
pub struct NewUn3(Box<NewUn2>);

#[derive(Serialize, OpgModel)]
pub struct NewIntEnum(IntEnum);

#[derive(Serialize, OpgModel)]
#[opg("external")]
pub struct NewExt(ExtEnum);

#[derive(Serialize, OpgModel)]
pub struct NewAdj(AdjEnum);

#[derive(Serialize, OpgModel)]
#[opg(format = "f")]
pub struct NewStrEnum(StrEnum);

#[derive(Serialize, OpgModel)]
pub struct NewRepr(ReprEnum);

#[derive(Serialize, OpgModel)]
pub struct NewOptUn(Option<Untagged>);

#[derive(Serialize, OpgModel)]
pub struct NewVecUn(Vec<NewUn>);

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct NewTup(Tup);

#[derive(Serialize, OpgModel)]
pub struct NewMap(BTreeMap<String, NewUn3>);

#[derive(Serialize, OpgModel)]
pub struct NewRec(Vec<Option<NewRec>>);

#[derive(Serialize, OpgModel)]
pub struct NewObj(BigObj);

#[derive(Serialize, OpgModel)]
pub struct UsesNew {
    #[opg(example_with = "tick(\"UsesNew\")")]
    tick: String,
    a: NewUn3,
    #[opg(inline)]
    b: NewUn2,
    c: Option<NewIntEnum>,
    d: (NewExt, NewAdj, NewStrEnum, NewRepr),
    e: NewTup,
    f: Vec<NewTup>,
    g: HashMap<String, NewOptUn>,
    #[opg("described")]
    h: NewVecUn,
    i: NewMap,
    j: NewRec,
    k: Box<NewObj>,
}

/// Types of each shape, inlined into each other several levels deep.
#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainSt0 {
    #[opg(example_with = "tick(\"ChainSt\")")]
    tick: String,
}

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainSt1 { pub f: ChainSt0 }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainSt2 { pub f: ChainSt1 }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainSt3 { pub f: ChainSt2 }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainSt4 { pub f: ChainSt3 }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainSt5 { pub f: ChainSt4 }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainSt6 { pub f: ChainSt5 }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainSt7 { pub f: ChainSt6 }

#[derive(Serialize, OpgModel)]
pub struct ChainSt { pub f: ChainSt7 }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainStI0 {
    #[opg(example_with = "tick(\"ChainStI\")")]
    tick: String,
}

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainStI1 { pub g: u8, #[opg("d", inline)] pub f: ChainStI0 }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainStI2 { pub g: u8, #[opg("d", inline)] pub f: ChainStI1 }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainStI3 { pub g: u8, #[opg("d", inline)] pub f: ChainStI2 }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainStI4 { pub g: u8, #[opg("d", inline)] pub f: ChainStI3 }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainStI5 { pub g: u8, #[opg("d", inline)] pub f: ChainStI4 }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainStI6 { pub g: u8, #[opg("d", inline)] pub f: ChainStI5 }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainStI7 { pub g: u8, #[opg("d", inline)] pub f: ChainStI6 }

#[derive(Serialize, OpgModel)]
pub struct ChainStI { pub g: u8, #[opg("d", inline)] pub f: ChainStI7 }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainTu0 {
    #[opg(example_with = "tick(\"ChainTu\")")]
    tick: String,
}

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainTu1(pub u8, pub ChainTu0);

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainTu2(pub u8, pub ChainTu1);

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainTu3(pub u8, pub ChainTu2);

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainTu4(pub u8, pub ChainTu3);

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainTu5(pub u8, pub ChainTu4);

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainTu6(pub u8, pub ChainTu5);

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainTu7(pub u8, pub ChainTu6);

#[derive(Serialize, OpgModel)]
pub struct ChainTu(pub u8, pub ChainTu7);

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainNeT0 {
    #[opg(example_with = "tick(\"ChainNeT\")")]
    tick: String,
}

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainNeT1(pub ChainNeT0);

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainNeT2(pub ChainNeT1);

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainNeT3(pub ChainNeT2);

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainNeT4(pub ChainNeT3);

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainNeT5(pub ChainNeT4);

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainNeT6(pub ChainNeT5);

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainNeT7(pub ChainNeT6);

#[derive(Serialize, OpgModel)]
pub struct ChainNeT(pub ChainNeT7);

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainExN0 {
    #[opg(example_with = "tick(\"ChainExN\")")]
    tick: String,
}

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum ChainExN1 { A(ChainExN0), B(u8) }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum ChainExN2 { A(ChainExN1), B(u8) }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum ChainExN3 { A(ChainExN2), B(u8) }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum ChainExN4 { A(ChainExN3), B(u8) }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum ChainExN5 { A(ChainExN4), B(u8) }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum ChainExN6 { A(ChainExN5), B(u8) }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum ChainExN7 { A(ChainExN6), B(u8) }

#[derive(Serialize, OpgModel)]
pub enum ChainExN { A(ChainExN7), B(u8) }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainExT0 {
    #[opg(example_with = "tick(\"ChainExT\")")]
    tick: String,
}

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum ChainExT1 { A(u8, ChainExT0), B }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum ChainExT2 { A(u8, ChainExT1), B }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum ChainExT3 { A(u8, ChainExT2), B }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum ChainExT4 { A(u8, ChainExT3), B }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum ChainExT5 { A(u8, ChainExT4), B }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum ChainExT6 { A(u8, ChainExT5), B }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum ChainExT7 { A(u8, ChainExT6), B }

#[derive(Serialize, OpgModel)]
pub enum ChainExT { A(u8, ChainExT7), B }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainExS0 {
    #[opg(example_with = "tick(\"ChainExS\")")]
    tick: String,
}

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum ChainExS1 { B, A { f: ChainExS0 } }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum ChainExS2 { B, A { f: ChainExS1 } }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum ChainExS3 { B, A { f: ChainExS2 } }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum ChainExS4 { B, A { f: ChainExS3 } }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum ChainExS5 { B, A { f: ChainExS4 } }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum ChainExS6 { B, A { f: ChainExS5 } }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub enum ChainExS7 { B, A { f: ChainExS6 } }

#[derive(Serialize, OpgModel)]
pub enum ChainExS { B, A { f: ChainExS7 } }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainAdN0 {
    #[opg(example_with = "tick(\"ChainAdN\")")]
    tick: String,
}

#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(inline)]
pub enum ChainAdN1 { A(ChainAdN0), B(u8) }

#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(inline)]
pub enum ChainAdN2 { A(ChainAdN1), B(u8) }

#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(inline)]
pub enum ChainAdN3 { A(ChainAdN2), B(u8) }

#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(inline)]
pub enum ChainAdN4 { A(ChainAdN3), B(u8) }

#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(inline)]
pub enum ChainAdN5 { A(ChainAdN4), B(u8) }

#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(inline)]
pub enum ChainAdN6 { A(ChainAdN5), B(u8) }

#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(inline)]
pub enum ChainAdN7 { A(ChainAdN6), B(u8) }

#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
pub enum ChainAdN { A(ChainAdN7), B(u8) }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainAdT0 {
    #[opg(example_with = "tick(\"ChainAdT\")")]
    tick: String,
}

#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(inline)]
pub enum ChainAdT1 { A(u8, ChainAdT0), B(u8) }

#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(inline)]
pub enum ChainAdT2 { A(u8, ChainAdT1), B(u8) }

#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(inline)]
pub enum ChainAdT3 { A(u8, ChainAdT2), B(u8) }

#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(inline)]
pub enum ChainAdT4 { A(u8, ChainAdT3), B(u8) }

#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(inline)]
pub enum ChainAdT5 { A(u8, ChainAdT4), B(u8) }

#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(inline)]
pub enum ChainAdT6 { A(u8, ChainAdT5), B(u8) }

#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
#[opg(inline)]
pub enum ChainAdT7 { A(u8, ChainAdT6), B(u8) }

#[derive(Serialize, OpgModel)]
#[serde(tag = "t", content = "c")]
pub enum ChainAdT { A(u8, ChainAdT7), B(u8) }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainUnN0 {
    #[opg(example_with = "tick(\"ChainUnN\")")]
    tick: String,
}

#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg(inline)]
pub enum ChainUnN1 { B(u8), A(ChainUnN0) }

#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg(inline)]
pub enum ChainUnN2 { B(u8), A(ChainUnN1) }

#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg(inline)]
pub enum ChainUnN3 { B(u8), A(ChainUnN2) }

#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg(inline)]
pub enum ChainUnN4 { B(u8), A(ChainUnN3) }

#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg(inline)]
pub enum ChainUnN5 { B(u8), A(ChainUnN4) }

#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg(inline)]
pub enum ChainUnN6 { B(u8), A(ChainUnN5) }

#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg(inline)]
pub enum ChainUnN7 { B(u8), A(ChainUnN6) }

#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum ChainUnN { B(u8), A(ChainUnN7) }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainUnS0 {
    #[opg(example_with = "tick(\"ChainUnS\")")]
    tick: String,
}

#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg(inline)]
pub enum ChainUnS1 { A { f: ChainUnS0 }, B(u8) }

#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg(inline)]
pub enum ChainUnS2 { A { f: ChainUnS1 }, B(u8) }

#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg(inline)]
pub enum ChainUnS3 { A { f: ChainUnS2 }, B(u8) }

#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg(inline)]
pub enum ChainUnS4 { A { f: ChainUnS3 }, B(u8) }

#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg(inline)]
pub enum ChainUnS5 { A { f: ChainUnS4 }, B(u8) }

#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg(inline)]
pub enum ChainUnS6 { A { f: ChainUnS5 }, B(u8) }

#[derive(Serialize, OpgModel)]
#[serde(untagged)]
#[opg(inline)]
pub enum ChainUnS7 { A { f: ChainUnS6 }, B(u8) }

#[derive(Serialize, OpgModel)]
#[serde(untagged)]
pub enum ChainUnS { A { f: ChainUnS7 }, B(u8) }

#[derive(Serialize, OpgModel)]
#[opg(inline)]
pub struct ChainInS0 {
    #[opg(example_with = "tick(\"ChainInS\")")]
    tick: String,
}

#[derive(Serialize, OpgModel)]
#[serde(tag = "t")]
#[opg(inline)]
pub enum ChainInS1 { A { f: ChainInS0 }, B }

#[derive(Serialize, OpgModel)]
#[serde(tag = "t")]
#[opg(inline)]
pub enum ChainInS2 { A { f: ChainInS1 }, B }

#[derive(Serialize, OpgModel)]
#[serde(tag = "t")]
#[opg(inline)]
pub enum ChainInS3 { A { f: ChainInS2 }, B }

#[derive(Serialize, OpgModel)]
#[serde(tag = "t")]
#[opg(inline)]
pub enum ChainInS4 { A { f: ChainInS3 }, B }

#[derive(Serialize, OpgModel)]
#[serde(tag = "t")]
#[opg(inline)]
pub enum ChainInS5 { A { f: ChainInS4 }, B }

#[derive(Serialize, OpgModel)]
#[serde(tag = "t")]
#[opg(inline)]
pub enum ChainInS6 { A { f: ChainInS5 }, B }

#[derive(Serialize, OpgModel)]
#[serde(tag = "t")]
#[opg(inline)]
pub enum ChainInS7 { A { f: ChainInS6 }, B }

#[derive(Serialize, OpgModel)]
#[serde(tag = "t")]
pub enum ChainInS { A { f: ChainInS7 }, B }

#[derive(Serialize, OpgModel)]
pub struct NewUn4(NewUn3);

#[derive(Serialize, OpgModel)]
pub struct NewUn5(NewUn4);

#[derive(Serialize, OpgModel)]
pub struct NewUn6(NewUn5);

#[derive(Serialize, OpgModel)]
pub struct NewUn7(NewUn6);

#[derive(Serialize, OpgModel)]
pub struct NewUn8(NewUn7);

#[derive(Clone, Copy)]
pub enum Op {
    /// a mention that may become a link
    M(&'static str),
    /// schema code that runs in place
    X(&'static str),
    /// an expression of the type itself
    T(&'static str),
}

pub struct TypeInfo {
    pub name: &'static str,
    pub named: bool,
    pub ticks: bool,
    pub ops: &'static [Op],
    pub mention: fn(&mut Components, bool, &ContextParams) -> ModelReference,
    /// mention through `Option`, `Box`, `Vec`, ...
    pub through: &'static [fn(&mut Components, bool, &ContextParams) -> ModelReference],
    pub schema: fn(&mut Components) -> Model,
}

fn mention_as<M: OpgModel + ?Sized>(cx: &mut Components, inline: bool, params: &ContextParams) -> ModelReference {
    cx.mention_schema::<M>(inline, params)
}

/// What each entry of `TypeInfo::through` means, for the reference evaluator.
pub const THROUGH: [&str; 8] = ["o(T)", "s(T)", "c(T)", "d(T)", "o(s(T))", "c(o(T))", "c(TT)", "s(T)"];

macro_rules! info {
    ($( $ty:ty, $name:literal, $named:literal, $ticks:literal, [$($op:ident $target:literal),*]; )+) => {
        pub static TYPES: &[TypeInfo] = &[$(TypeInfo {
            name: $name,
            named: $named,
            ticks: $ticks,
            ops: &[$(Op::$op($target)),*],
            mention: mention_as::<$ty>,
            through: &[
                mention_as::<Option<$ty>>, mention_as::<Box<$ty>>, mention_as::<Vec<$ty>>,
                mention_as::<HashMap<String, $ty>>, mention_as::<Option<Box<$ty>>>, mention_as::<Vec<Option<$ty>>>,
                mention_as::<($ty, $ty)>, mention_as::<&'static $ty>,
            ],
            schema: <$ty as OpgModel>::get_schema,
        }),+];
    };
}

info! {
    Leaf, "Leaf", true, true, [];
    Plain, "Plain", true, true, [M "Leaf", M "Leaf", M "Leaf", M "Leaf"];
    Inl, "Inl", false, true, [M "Leaf"];
    UsesInl, "UsesInl", true, true, [X "Inl", X "Inl", X "Leaf", X "Inl"];
    SelfRef, "SelfRef", true, true, [M "SelfRef", M "SelfRef", M "SelfRef"];
    MutA, "MutA", true, true, [M "MutB"];
    MutB, "MutB", true, true, [M "MutA", M "Leaf"];
    CycA, "CycA", true, true, [M "CycB"];
    CycB, "CycB", true, true, [M "CycC", M "CycA"];
    CycC, "CycC", true, true, [M "CycA", M "CycB", X "Plain"];
    NewTy, "NewTy", true, true, [X "Leaf"];
    NewStr, "NewStr", true, true, [];
    NewOpt, "NewOpt", true, true, [X "Leaf"];
    NewVec, "NewVec", true, true, [M "Plain"];
    NewNew, "NewNew", true, true, [X "NewTy"];
    NewInl, "NewInl", true, true, [X "Inl"];
    Tup, "Tup", true, true, [M "Leaf", M "Plain", X "NewTy"];
    StrEnum, "StrEnum", true, false, [];
    ReprEnum, "ReprEnum", true, false, [];
    ExtEnum, "ExtEnum", true, true, [M "Leaf", M "Leaf", M "Plain", M "SelfRef", X "NewTy"];
    IntEnum, "IntEnum", true, true, [X "IntBody", M "IntBody"];
    IntBody, "IntBody", true, true, [M "IntEnum", M "StrEnum"];
    AdjEnum, "AdjEnum", true, true, [M "IntBody", M "StrEnum"];
    Untagged, "Untagged", true, true, [M "StrEnum", M "IntBody"];
    Gen<Leaf>, "Gen", true, true, [M "Leaf", M "Leaf"];
    GenRef<'static, Plain, StrEnum>, "GenRef", true, true, [M "Plain", M "StrEnum"];
    Fields, "Fields", true, true, [M "StrEnum", M "StrEnum"];
    Std, "Std", true, true, [];
    Deep, "Deep", true, true, [M "Leaf", M "NewStr", M "NewVec", M "NewOpt"];
    UsesEnums, "UsesEnums", true, true, [M "ExtEnum", X "IntEnum", M "AdjEnum", M "Untagged", M "StrEnum", M "ReprEnum"];
    RecEnum, "RecEnum", true, true, [M "Leaf", M "RecEnum", M "RecEnum", M "RecEnum"];
    InlEnum, "InlEnum", false, true, [M "Leaf", M "MutB"];
    UsesInlEnum, "UsesInlEnum", true, true, [X "InlEnum", X "InlEnum", X "InlEnum"];
    Diamond, "Diamond", true, true, [M "DiamondSide", M "DiamondSide2"];
    DiamondSide, "DiamondSide", true, true, [M "Plain", M "UsesInl"];
    DiamondSide2, "DiamondSide2", true, true, [M "Plain", M "UsesInl"];
    NewNum, "NewNum", true, true, [];
    Transp, "Transp", true, true, [M "MutA"];
    InlNew, "InlNew", false, true, [];
    InlStr, "InlStr", false, false, [];
    InlRepr, "InlRepr", false, false, [];
    InlInt, "InlInt", false, true, [X "IntBody", M "RecUse", X "StrEnum"];
    RecUse, "RecUse", true, true, [X "InlInt", X "InlStr", X "InlRepr", X "InlNew", M "NewNum", M "Transp"];
    InlAdj, "InlAdj", false, true, [X "Leaf", X "NewStr"];
    InlUn, "InlUn", false, true, [X "Leaf", M "Plain", M "Opt2"];
    Opt2, "Opt2", true, true, [X "InlUn", X "InlAdj", M "NewNum"];
    Mixed<'static, i32, [Leaf]>, "Mixed", true, true, [M "Leaf", M "Opt2"];
    InlExt, "InlExt", false, true, [X "Leaf", X "NewStr"];
    InlTup, "InlTup", false, true, [M "MutA", M "StrEnum"];
    UnMore, "UnMore", true, true, [M "StrEnum", M "UnMore", M "UnMore"];
    UsesMore, "UsesMore", true, true, [X "InlExt", X "InlExt", X "InlTup", X "InlTup", X "UnMore", M "UnMore"];
    Wide, "Wide", true, true, [M "Leaf", M "Plain", M "MutA", M "StrEnum", M "NewStr", M "NewTy", M "NewNum", M "Transp",
        M "Opt2", M "Tup", M "Untagged", M "Leaf", M "AdjEnum", M "ReprEnum", X "Inl", M "Wide"];
    Exs, "Exs", true, true, [T "Exs.integer", T "Exs.number", T "Exs.string", T "Exs.int", T "Exs.optional", T "Exs.list",
        T "Exs.link", M "NewStr", T "Exs.copy", X "NewNum", T "Exs.link2", M "Leaf"];
    NewInt, "NewInt", true, true, [];
    InlText, "InlText", false, true, [];
    ExTup, "ExTup", true, true, [T "ExTup.1", M "NewInt", T "ExTup.2", X "NewInt", T "ExTup.3", X "InlText"];
    ExExt, "ExExt", true, true, [T "ExExt.B", T "ExExt.C", X "NewInt", T "ExExt.D", T "ExExt.D1", T "ExExt.E", T "ExExt.E1", M "ExExt"];
    ExAdj, "ExAdj", false, true, [T "ExAdj.B", T "ExAdj.C", T "ExAdj.C1", X "NewStr", T "ExAdj.D", M "ExTup"];
    ExUn, "ExUn", true, true, [X "ExAdj", T "ExUn.B", T "ExUn.C", M "NewStr", M "Exs"];
    ExInt, "ExInt", true, true, [X "Exs", T "ExInt.B", X "Leaf", T "ExInt.C", M "ExUn"];
    BigObj, "BigObj", true, true, [M "Leaf", M "Plain", M "MutA", M "StrEnum", M "NewStr", M "NewTy", M "NewNum", M "Transp", M "Opt2", M "Tup", M "Untagged", M "AdjEnum", M "ReprEnum", M "Diamond", M "Exs", M "NewInt", M "ExTup", M "ExExt", M "ExUn", M "ExInt", X "Inl", X "Inl", X "Plain"];
    BigStr, "BigStr", true, false, [];
    BigExt, "BigExt", true, true, [M "Leaf", M "Plain", M "MutA", M "MutA", M "BigStr", M "NewStr", M "NewTy", M "NewNum", M "NewNum", M "BigStr", M "Opt2", M "Tup", M "Untagged", M "Untagged", M "BigStr"];
    BigUn, "BigUn", true, true, [M "ExInt", M "ExUn", M "ExExt", M "BigUn", M "ExTup", M "NewInt", M "Exs", M "BigUn", M "Diamond", M "ReprEnum", M "AdjEnum", M "BigUn", M "Untagged", M "Tup", M "Opt2", M "BigUn"];
    BigAdj, "BigAdj", true, true, [M "StrEnum", M "NewStr", M "BigAdj", M "NewTy", M "NewNum", M "Transp", M "BigAdj", M "Opt2", M "Tup", M "Untagged", M "BigAdj", M "AdjEnum", M "ReprEnum", M "Diamond", M "BigAdj", M "Exs"];
    BigInt, "BigInt", true, true, [M "Leaf", M "BigInt2", M "Plain", M "BigInt2", M "MutA", M "BigInt2", M "StrEnum", M "BigInt2", M "NewStr", M "BigInt2", M "NewTy", M "BigInt2", M "NewNum", M "BigInt2", M "Transp", M "BigInt2", M "Opt2", M "BigInt2", M "Tup", M "BigInt2", X "IntBody"];
    BigInt2, "BigInt2", true, true, [M "Leaf", M "Plain", M "MutA", M "StrEnum", M "NewStr", M "NewTy", X "NewNum", M "Transp", M "Opt2", M "Tup", M "Untagged", M "AdjEnum", M "ReprEnum", X "Diamond"];
    NewUn, "NewUn", true, false, [X "Untagged"];
    NewUn2, "NewUn2", true, false, [X "NewUn"];
    NewUn3, "NewUn3", true, false, [X "NewUn2"];
    NewIntEnum, "NewIntEnum", true, false, [X "IntEnum"];
    NewExt, "NewExt", true, false, [X "ExtEnum"];
    NewAdj, "NewAdj", true, false, [X "AdjEnum"];
    NewStrEnum, "NewStrEnum", true, false, [X "StrEnum"];
    NewRepr, "NewRepr", true, false, [X "ReprEnum"];
    NewOptUn, "NewOptUn", true, false, [X "Untagged"];
    NewVecUn, "NewVecUn", true, false, [M "NewUn"];
    NewTup, "NewTup", false, false, [X "Tup"];
    NewMap, "NewMap", true, false, [M "NewUn3"];
    NewRec, "NewRec", true, false, [M "NewRec"];
    NewObj, "NewObj", true, false, [X "BigObj"];
    UsesNew, "UsesNew", true, true, [M "NewUn3", X "NewUn2", M "NewIntEnum", M "NewExt", M "NewAdj", M "NewStrEnum", M "NewRepr", X "NewTup", X "NewTup",
        M "NewOptUn", M "NewVecUn", M "NewMap", M "NewRec", M "NewObj"];
    ChainSt, "ChainSt", true, true, [];
    ChainStI, "ChainStI", true, true, [];
    ChainTu, "ChainTu", true, true, [];
    ChainNeT, "ChainNeT", true, true, [];
    ChainExN, "ChainExN", true, true, [];
    ChainExT, "ChainExT", true, true, [];
    ChainExS, "ChainExS", true, true, [];
    ChainAdN, "ChainAdN", true, true, [];
    ChainAdT, "ChainAdT", true, true, [];
    ChainUnN, "ChainUnN", true, true, [];
    ChainUnS, "ChainUnS", true, true, [];
    ChainInS, "ChainInS", true, true, [];
    NewUn8, "NewUn8", true, false, [X "NewUn3"];
}

/// Other types with the names of generic types above: further instantiations.
pub static RIVALS: &[fn(&mut Components, bool, &ContextParams) -> ModelReference] = &[
    mention_as::<Gen<Plain>>,
    mention_as::<Gen<String>>,
    mention_as::<Vec<Gen<Option<SelfRef>>>>,
    mention_as::<Option<Gen<Gen<Leaf>>>>,
    mention_as::<GenRef<'static, Leaf, Leaf>>,
    mention_as::<Box<GenRef<'static, StrEnum, Plain>>>,
    mention_as::<Mixed<'static, u8, str>>,
    mention_as::<Option<Mixed<'static, i32, Leaf>>>,
];

pub fn find(name: &str) -> &'static TypeInfo {
    TYPES.iter().find(|t| t.name == name).expect("known type")
}

/// A use of a derived type.
#[derive(Clone, Debug)]
pub struct Use {
    pub ty: usize,
    pub through: usize, // 0 direct, i+1: THROUGH[i]
    pub inline: bool,
    pub params: crate::zoo_node::Params,
}

impl Use {
    pub fn plain(ty: usize) -> Use {
        Use { ty, through: 0, inline: false, params: Default::default() }
    }
    pub fn mention(&self, cx: &mut Components) -> ModelReference {
        let info = &TYPES[self.ty];
        let f = if self.through == 0 { info.mention } else { info.through[self.through - 1] };
        f(cx, self.inline, &self.params.to_opg())
    }
    pub fn text(&self) -> String {
        format!(
            "{} {}{}",
            if self.through == 0 { "T" } else { THROUGH[self.through - 1] },
            TYPES[self.ty].name,
            if self.inline { " inline" } else { "" }
        )
    }
}

pub fn gen_use() -> Use {
    Use {
        ty: draw(TYPES.len()),
        through: if chance(50) { 0 } else { 1 + draw(THROUGH.len()) },
        inline: chance(20),
        params: crate::zoo_node::gen_params(true),
    }
}

/// Reference evaluator for derived types.
#[derive(Default, Clone)]
pub struct DEval {
    pub registered: BTreeSet<&'static str>,
    pub ticks: BTreeMap<&'static str, u64>,
    pub total: u64,
}

impl DEval {
    pub fn run(&mut self, info: &'static TypeInfo) {
        if info.ticks {
            *self.ticks.entry(info.name).or_insert(0) += 1;
            self.total += 1;
        }
        for op in info.ops {
            match op {
                Op::M(name) => self.mention_leaf(find(name), false),
                Op::X(name) => self.run(find(name)),
                Op::T(name) => {
                    *self.ticks.entry(*name).or_insert(0) += 1;
                    self.total += 1;
                }
            }
        }
    }

    fn mention_leaf(&mut self, info: &'static TypeInfo, inline: bool) {
        if info.named && !inline {
            if self.registered.insert(info.name) {
                self.run(info);
            }
        } else {
            self.run(info);
        }
    }

    pub fn mention(&mut self, u: &Use) {
        use crate::zoo_node::{parse_wrapper, W};
        fn walk(eval: &mut DEval, info: &'static TypeInfo, w: &W, inline: bool) {
            match w {
                W::T => eval.mention_leaf(info, inline),
                W::Plain(_) => {}
                W::Same(x) | W::Opt(x) => walk(eval, info, x, inline),
                W::Cont(items) | W::Dict(items) => items.iter().for_each(|x| walk(eval, info, x, false)),
            }
        }
        let w = if u.through == 0 { W::T } else { parse_wrapper(THROUGH[u.through - 1]) };
        walk(self, &TYPES[u.ty], &w, u.inline)
    }
}
