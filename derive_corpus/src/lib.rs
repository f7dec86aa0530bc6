// Generated by spec/derive_corpus.py
#![allow(dead_code, unused)]
use sval_derive::Value;

const CONTAINER: sval::Tag = sval::Tag::new("container");
const FIELD: sval::Tag = sval::Tag::new("field");
const FIELD2: sval::Tag = sval::Tag::new("field2");
const DATA: sval::Tag = sval::Tag::new("data");
const VARIANT: sval::Tag = sval::Tag::new("variant");
mod tags_of { pub const CONTAINER2: sval::Tag = sval::Tag::new("container2"); }
const A_LABEL: sval::Label = sval::Label::new("a const label").with_tag(&CONTAINER);
const AN_INDEX: sval::Index = sval::Index::new(11).with_tag(&CONTAINER);

#[derive(Value)]
pub struct S1;
pub fn ref_S1<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S1, stream: &mut St) -> sval::Result {
    stream.tag(None, Some(&sval::Label::new("S1").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S1(_: &S1) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S2(i32);
pub fn ref_S2<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S2, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S2").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.value(&this.0)?;
    stream.tagged_end(None, Some(&sval::Label::new("S2").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S2(_: &S2) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S3(i32, &'static str);
pub fn ref_S3<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S3, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S3").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S3").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S3(_: &S3) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S4 { first: i32, r#type: &'static str }
pub fn ref_S4<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S4, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S4").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S4").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S4(_: &S4) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S5 { first: i32, r#type: &'static str }
pub fn ref_S5<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S5, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S5").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S5").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S5(_: &S5) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S6(i32, &'static str);
pub fn ref_S6<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S6, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S6").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S6").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S6(_: &S6) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S7 { first: i32, r#type: &'static str }
pub fn ref_S7<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S7, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S7").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S7").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S7(_: &S7) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S8(i32, &'static str);
pub fn ref_S8<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S8, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S8").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S8").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S8(_: &S8) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S9 { first: i32, r#type: &'static str }
pub fn ref_S9<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S9, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S9").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.first)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.r#type)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S9").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S9(_: &S9) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S10(i32, &'static str);
pub fn ref_S10<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S10, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S10").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S10").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S10(_: &S10) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(tag = "CONTAINER")] pub struct S11;
pub fn ref_S11<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S11, stream: &mut St) -> sval::Result {
    stream.tag(Some(&CONTAINER), Some(&sval::Label::new("S11").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S11(_: &S11) -> Option<sval::Tag> { Some(CONTAINER) }
#[derive(Value)]
#[sval(tag = "CONTAINER")] pub struct S12(i32);
pub fn ref_S12<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S12, stream: &mut St) -> sval::Result {
    stream.tagged_begin(Some(&CONTAINER), Some(&sval::Label::new("S12").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&CONTAINER), Some(&sval::Label::new("S12").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S12(_: &S12) -> Option<sval::Tag> { Some(CONTAINER) }
#[derive(Value)]
#[sval(tag = "CONTAINER")] pub struct S13(i32, &'static str);
pub fn ref_S13<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S13, stream: &mut St) -> sval::Result {
    stream.tuple_begin(Some(&CONTAINER), Some(&sval::Label::new("S13").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(Some(&CONTAINER), Some(&sval::Label::new("S13").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S13(_: &S13) -> Option<sval::Tag> { Some(CONTAINER) }
#[derive(Value)]
#[sval(tag = "CONTAINER")] pub struct S14 { first: i32, r#type: &'static str }
pub fn ref_S14<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S14, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(Some(&CONTAINER), Some(&sval::Label::new("S14").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(Some(&CONTAINER), Some(&sval::Label::new("S14").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S14(_: &S14) -> Option<sval::Tag> { Some(CONTAINER) }
#[derive(Value)]
#[sval(tag = "CONTAINER", unlabeled_fields)] pub struct S15 { first: i32, r#type: &'static str }
pub fn ref_S15<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S15, stream: &mut St) -> sval::Result {
    stream.tuple_begin(Some(&CONTAINER), Some(&sval::Label::new("S15").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(Some(&CONTAINER), Some(&sval::Label::new("S15").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S15(_: &S15) -> Option<sval::Tag> { Some(CONTAINER) }
#[derive(Value)]
#[sval(tag = "CONTAINER", unlabeled_fields)] pub struct S16(i32, &'static str);
pub fn ref_S16<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S16, stream: &mut St) -> sval::Result {
    stream.tuple_begin(Some(&CONTAINER), Some(&sval::Label::new("S16").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(Some(&CONTAINER), Some(&sval::Label::new("S16").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S16(_: &S16) -> Option<sval::Tag> { Some(CONTAINER) }
#[derive(Value)]
#[sval(tag = "CONTAINER", unindexed_fields)] pub struct S17 { first: i32, r#type: &'static str }
pub fn ref_S17<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S17, stream: &mut St) -> sval::Result {
    stream.record_begin(Some(&CONTAINER), Some(&sval::Label::new("S17").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(Some(&CONTAINER), Some(&sval::Label::new("S17").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S17(_: &S17) -> Option<sval::Tag> { Some(CONTAINER) }
#[derive(Value)]
#[sval(tag = "CONTAINER", unindexed_fields)] pub struct S18(i32, &'static str);
pub fn ref_S18<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S18, stream: &mut St) -> sval::Result {
    stream.tagged_begin(Some(&CONTAINER), Some(&sval::Label::new("S18").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(Some(&CONTAINER), Some(&sval::Label::new("S18").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S18(_: &S18) -> Option<sval::Tag> { Some(CONTAINER) }
#[derive(Value)]
#[sval(tag = "CONTAINER", unlabeled_fields, unindexed_fields)] pub struct S19 { first: i32, r#type: &'static str }
pub fn ref_S19<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S19, stream: &mut St) -> sval::Result {
    stream.tagged_begin(Some(&CONTAINER), Some(&sval::Label::new("S19").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.first)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.r#type)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(Some(&CONTAINER), Some(&sval::Label::new("S19").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S19(_: &S19) -> Option<sval::Tag> { Some(CONTAINER) }
#[derive(Value)]
#[sval(tag = "CONTAINER", unlabeled_fields, unindexed_fields)] pub struct S20(i32, &'static str);
pub fn ref_S20<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S20, stream: &mut St) -> sval::Result {
    stream.tagged_begin(Some(&CONTAINER), Some(&sval::Label::new("S20").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(Some(&CONTAINER), Some(&sval::Label::new("S20").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S20(_: &S20) -> Option<sval::Tag> { Some(CONTAINER) }
#[derive(Value)]
#[sval(label = "a label")] pub struct S21;
pub fn ref_S21<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S21, stream: &mut St) -> sval::Result {
    stream.tag(None, Some(&sval::Label::new("a label")), None)?;
    Ok(())
}
pub fn tag_S21(_: &S21) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(label = "a label")] pub struct S22(i32);
pub fn ref_S22<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S22, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("a label")), None)?;
    stream.value(&this.0)?;
    stream.tagged_end(None, Some(&sval::Label::new("a label")), None)?;
    Ok(())
}
pub fn tag_S22(_: &S22) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(label = "a label")] pub struct S23(i32, &'static str);
pub fn ref_S23<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S23, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("a label")), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("a label")), None)?;
    Ok(())
}
pub fn tag_S23(_: &S23) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(label = "a label")] pub struct S24 { first: i32, r#type: &'static str }
pub fn ref_S24<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S24, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("a label")), None, Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("a label")), None)?;
    Ok(())
}
pub fn tag_S24(_: &S24) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(label = "a label", unlabeled_fields)] pub struct S25 { first: i32, r#type: &'static str }
pub fn ref_S25<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S25, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("a label")), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("a label")), None)?;
    Ok(())
}
pub fn tag_S25(_: &S25) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(label = "a label", unlabeled_fields)] pub struct S26(i32, &'static str);
pub fn ref_S26<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S26, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("a label")), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("a label")), None)?;
    Ok(())
}
pub fn tag_S26(_: &S26) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(label = "a label", unindexed_fields)] pub struct S27 { first: i32, r#type: &'static str }
pub fn ref_S27<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S27, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("a label")), None, Some(2))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("a label")), None)?;
    Ok(())
}
pub fn tag_S27(_: &S27) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(label = "a label", unindexed_fields)] pub struct S28(i32, &'static str);
pub fn ref_S28<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S28, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("a label")), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("a label")), None)?;
    Ok(())
}
pub fn tag_S28(_: &S28) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(label = "a label", unlabeled_fields, unindexed_fields)] pub struct S29 { first: i32, r#type: &'static str }
pub fn ref_S29<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S29, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("a label")), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.first)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.r#type)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("a label")), None)?;
    Ok(())
}
pub fn tag_S29(_: &S29) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(label = "a label", unlabeled_fields, unindexed_fields)] pub struct S30(i32, &'static str);
pub fn ref_S30<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S30, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("a label")), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("a label")), None)?;
    Ok(())
}
pub fn tag_S30(_: &S30) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(label = A_LABEL)] pub struct S31;
pub fn ref_S31<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S31, stream: &mut St) -> sval::Result {
    stream.tag(None, Some(&A_LABEL), None)?;
    Ok(())
}
pub fn tag_S31(_: &S31) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(label = A_LABEL)] pub struct S32(i32);
pub fn ref_S32<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S32, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&A_LABEL), None)?;
    stream.value(&this.0)?;
    stream.tagged_end(None, Some(&A_LABEL), None)?;
    Ok(())
}
pub fn tag_S32(_: &S32) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(label = A_LABEL)] pub struct S33(i32, &'static str);
pub fn ref_S33<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S33, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&A_LABEL), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&A_LABEL), None)?;
    Ok(())
}
pub fn tag_S33(_: &S33) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(label = A_LABEL)] pub struct S34 { first: i32, r#type: &'static str }
pub fn ref_S34<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S34, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&A_LABEL), None, Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&A_LABEL), None)?;
    Ok(())
}
pub fn tag_S34(_: &S34) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(label = A_LABEL, unlabeled_fields)] pub struct S35 { first: i32, r#type: &'static str }
pub fn ref_S35<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S35, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&A_LABEL), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&A_LABEL), None)?;
    Ok(())
}
pub fn tag_S35(_: &S35) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(label = A_LABEL, unlabeled_fields)] pub struct S36(i32, &'static str);
pub fn ref_S36<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S36, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&A_LABEL), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&A_LABEL), None)?;
    Ok(())
}
pub fn tag_S36(_: &S36) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(label = A_LABEL, unindexed_fields)] pub struct S37 { first: i32, r#type: &'static str }
pub fn ref_S37<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S37, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&A_LABEL), None, Some(2))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&A_LABEL), None)?;
    Ok(())
}
pub fn tag_S37(_: &S37) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(label = A_LABEL, unindexed_fields)] pub struct S38(i32, &'static str);
pub fn ref_S38<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S38, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&A_LABEL), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&A_LABEL), None)?;
    Ok(())
}
pub fn tag_S38(_: &S38) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(label = A_LABEL, unlabeled_fields, unindexed_fields)] pub struct S39 { first: i32, r#type: &'static str }
pub fn ref_S39<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S39, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&A_LABEL), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.first)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.r#type)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&A_LABEL), None)?;
    Ok(())
}
pub fn tag_S39(_: &S39) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(label = A_LABEL, unlabeled_fields, unindexed_fields)] pub struct S40(i32, &'static str);
pub fn ref_S40<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S40, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&A_LABEL), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&A_LABEL), None)?;
    Ok(())
}
pub fn tag_S40(_: &S40) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = 7)] pub struct S41;
pub fn ref_S41<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S41, stream: &mut St) -> sval::Result {
    stream.tag(None, Some(&sval::Label::new("S41").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(7isize)))?;
    Ok(())
}
pub fn tag_S41(_: &S41) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = 7)] pub struct S42(i32);
pub fn ref_S42<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S42, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S42").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(7isize)))?;
    stream.value(&this.0)?;
    stream.tagged_end(None, Some(&sval::Label::new("S42").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(7isize)))?;
    Ok(())
}
pub fn tag_S42(_: &S42) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = 7)] pub struct S43(i32, &'static str);
pub fn ref_S43<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S43, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S43").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(7isize)), Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S43").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(7isize)))?;
    Ok(())
}
pub fn tag_S43(_: &S43) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = 7)] pub struct S44 { first: i32, r#type: &'static str }
pub fn ref_S44<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S44, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S44").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(7isize)), Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S44").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(7isize)))?;
    Ok(())
}
pub fn tag_S44(_: &S44) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = 7, unlabeled_fields)] pub struct S45 { first: i32, r#type: &'static str }
pub fn ref_S45<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S45, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S45").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(7isize)), Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S45").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(7isize)))?;
    Ok(())
}
pub fn tag_S45(_: &S45) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = 7, unlabeled_fields)] pub struct S46(i32, &'static str);
pub fn ref_S46<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S46, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S46").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(7isize)), Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S46").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(7isize)))?;
    Ok(())
}
pub fn tag_S46(_: &S46) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = 7, unindexed_fields)] pub struct S47 { first: i32, r#type: &'static str }
pub fn ref_S47<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S47, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S47").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(7isize)), Some(2))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S47").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(7isize)))?;
    Ok(())
}
pub fn tag_S47(_: &S47) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = 7, unindexed_fields)] pub struct S48(i32, &'static str);
pub fn ref_S48<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S48, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S48").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(7isize)))?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S48").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(7isize)))?;
    Ok(())
}
pub fn tag_S48(_: &S48) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = 7, unlabeled_fields, unindexed_fields)] pub struct S49 { first: i32, r#type: &'static str }
pub fn ref_S49<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S49, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S49").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(7isize)))?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.first)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.r#type)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S49").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(7isize)))?;
    Ok(())
}
pub fn tag_S49(_: &S49) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = 7, unlabeled_fields, unindexed_fields)] pub struct S50(i32, &'static str);
pub fn ref_S50<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S50, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S50").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(7isize)))?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S50").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(7isize)))?;
    Ok(())
}
pub fn tag_S50(_: &S50) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = -3)] pub struct S51;
pub fn ref_S51<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S51, stream: &mut St) -> sval::Result {
    stream.tag(None, Some(&sval::Label::new("S51").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-3isize)))?;
    Ok(())
}
pub fn tag_S51(_: &S51) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = -3)] pub struct S52(i32);
pub fn ref_S52<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S52, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S52").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-3isize)))?;
    stream.value(&this.0)?;
    stream.tagged_end(None, Some(&sval::Label::new("S52").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-3isize)))?;
    Ok(())
}
pub fn tag_S52(_: &S52) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = -3)] pub struct S53(i32, &'static str);
pub fn ref_S53<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S53, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S53").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-3isize)), Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S53").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-3isize)))?;
    Ok(())
}
pub fn tag_S53(_: &S53) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = -3)] pub struct S54 { first: i32, r#type: &'static str }
pub fn ref_S54<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S54, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S54").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-3isize)), Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S54").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-3isize)))?;
    Ok(())
}
pub fn tag_S54(_: &S54) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = -3, unlabeled_fields)] pub struct S55 { first: i32, r#type: &'static str }
pub fn ref_S55<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S55, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S55").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-3isize)), Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S55").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-3isize)))?;
    Ok(())
}
pub fn tag_S55(_: &S55) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = -3, unlabeled_fields)] pub struct S56(i32, &'static str);
pub fn ref_S56<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S56, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S56").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-3isize)), Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S56").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-3isize)))?;
    Ok(())
}
pub fn tag_S56(_: &S56) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = -3, unindexed_fields)] pub struct S57 { first: i32, r#type: &'static str }
pub fn ref_S57<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S57, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S57").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-3isize)), Some(2))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S57").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-3isize)))?;
    Ok(())
}
pub fn tag_S57(_: &S57) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = -3, unindexed_fields)] pub struct S58(i32, &'static str);
pub fn ref_S58<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S58, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S58").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-3isize)))?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S58").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-3isize)))?;
    Ok(())
}
pub fn tag_S58(_: &S58) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = -3, unlabeled_fields, unindexed_fields)] pub struct S59 { first: i32, r#type: &'static str }
pub fn ref_S59<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S59, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S59").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-3isize)))?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.first)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.r#type)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S59").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-3isize)))?;
    Ok(())
}
pub fn tag_S59(_: &S59) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = -3, unlabeled_fields, unindexed_fields)] pub struct S60(i32, &'static str);
pub fn ref_S60<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S60, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S60").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-3isize)))?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S60").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-3isize)))?;
    Ok(())
}
pub fn tag_S60(_: &S60) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = AN_INDEX)] pub struct S61;
pub fn ref_S61<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S61, stream: &mut St) -> sval::Result {
    stream.tag(None, Some(&sval::Label::new("S61").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)))?;
    Ok(())
}
pub fn tag_S61(_: &S61) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = AN_INDEX)] pub struct S62(i32);
pub fn ref_S62<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S62, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S62").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)))?;
    stream.value(&this.0)?;
    stream.tagged_end(None, Some(&sval::Label::new("S62").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)))?;
    Ok(())
}
pub fn tag_S62(_: &S62) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = AN_INDEX)] pub struct S63(i32, &'static str);
pub fn ref_S63<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S63, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S63").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)), Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S63").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)))?;
    Ok(())
}
pub fn tag_S63(_: &S63) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = AN_INDEX)] pub struct S64 { first: i32, r#type: &'static str }
pub fn ref_S64<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S64, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S64").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)), Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S64").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)))?;
    Ok(())
}
pub fn tag_S64(_: &S64) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = AN_INDEX, unlabeled_fields)] pub struct S65 { first: i32, r#type: &'static str }
pub fn ref_S65<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S65, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S65").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)), Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S65").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)))?;
    Ok(())
}
pub fn tag_S65(_: &S65) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = AN_INDEX, unlabeled_fields)] pub struct S66(i32, &'static str);
pub fn ref_S66<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S66, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S66").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)), Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S66").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)))?;
    Ok(())
}
pub fn tag_S66(_: &S66) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = AN_INDEX, unindexed_fields)] pub struct S67 { first: i32, r#type: &'static str }
pub fn ref_S67<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S67, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S67").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)), Some(2))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S67").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)))?;
    Ok(())
}
pub fn tag_S67(_: &S67) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = AN_INDEX, unindexed_fields)] pub struct S68(i32, &'static str);
pub fn ref_S68<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S68, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S68").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)))?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S68").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)))?;
    Ok(())
}
pub fn tag_S68(_: &S68) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = AN_INDEX, unlabeled_fields, unindexed_fields)] pub struct S69 { first: i32, r#type: &'static str }
pub fn ref_S69<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S69, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S69").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)))?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.first)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.r#type)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S69").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)))?;
    Ok(())
}
pub fn tag_S69(_: &S69) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = AN_INDEX, unlabeled_fields, unindexed_fields)] pub struct S70(i32, &'static str);
pub fn ref_S70<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S70, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S70").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)))?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S70").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)))?;
    Ok(())
}
pub fn tag_S70(_: &S70) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(tag = "tags_of::CONTAINER2", label = "both", index = 2)] pub struct S71;
pub fn ref_S71<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S71, stream: &mut St) -> sval::Result {
    stream.tag(Some(&tags_of::CONTAINER2), Some(&sval::Label::new("both")), Some(&sval::Index::from(2isize)))?;
    Ok(())
}
pub fn tag_S71(_: &S71) -> Option<sval::Tag> { Some(tags_of::CONTAINER2) }
#[derive(Value)]
#[sval(tag = "tags_of::CONTAINER2", label = "both", index = 2)] pub struct S72(i32);
pub fn ref_S72<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S72, stream: &mut St) -> sval::Result {
    stream.tagged_begin(Some(&tags_of::CONTAINER2), Some(&sval::Label::new("both")), Some(&sval::Index::from(2isize)))?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&tags_of::CONTAINER2), Some(&sval::Label::new("both")), Some(&sval::Index::from(2isize)))?;
    Ok(())
}
pub fn tag_S72(_: &S72) -> Option<sval::Tag> { Some(tags_of::CONTAINER2) }
#[derive(Value)]
#[sval(tag = "tags_of::CONTAINER2", label = "both", index = 2)] pub struct S73(i32, &'static str);
pub fn ref_S73<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S73, stream: &mut St) -> sval::Result {
    stream.tuple_begin(Some(&tags_of::CONTAINER2), Some(&sval::Label::new("both")), Some(&sval::Index::from(2isize)), Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(Some(&tags_of::CONTAINER2), Some(&sval::Label::new("both")), Some(&sval::Index::from(2isize)))?;
    Ok(())
}
pub fn tag_S73(_: &S73) -> Option<sval::Tag> { Some(tags_of::CONTAINER2) }
#[derive(Value)]
#[sval(tag = "tags_of::CONTAINER2", label = "both", index = 2)] pub struct S74 { first: i32, r#type: &'static str }
pub fn ref_S74<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S74, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(Some(&tags_of::CONTAINER2), Some(&sval::Label::new("both")), Some(&sval::Index::from(2isize)), Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(Some(&tags_of::CONTAINER2), Some(&sval::Label::new("both")), Some(&sval::Index::from(2isize)))?;
    Ok(())
}
pub fn tag_S74(_: &S74) -> Option<sval::Tag> { Some(tags_of::CONTAINER2) }
#[derive(Value)]
#[sval(tag = "tags_of::CONTAINER2", label = "both", index = 2, unlabeled_fields)] pub struct S75 { first: i32, r#type: &'static str }
pub fn ref_S75<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S75, stream: &mut St) -> sval::Result {
    stream.tuple_begin(Some(&tags_of::CONTAINER2), Some(&sval::Label::new("both")), Some(&sval::Index::from(2isize)), Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(Some(&tags_of::CONTAINER2), Some(&sval::Label::new("both")), Some(&sval::Index::from(2isize)))?;
    Ok(())
}
pub fn tag_S75(_: &S75) -> Option<sval::Tag> { Some(tags_of::CONTAINER2) }
#[derive(Value)]
#[sval(tag = "tags_of::CONTAINER2", label = "both", index = 2, unlabeled_fields)] pub struct S76(i32, &'static str);
pub fn ref_S76<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S76, stream: &mut St) -> sval::Result {
    stream.tuple_begin(Some(&tags_of::CONTAINER2), Some(&sval::Label::new("both")), Some(&sval::Index::from(2isize)), Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(Some(&tags_of::CONTAINER2), Some(&sval::Label::new("both")), Some(&sval::Index::from(2isize)))?;
    Ok(())
}
pub fn tag_S76(_: &S76) -> Option<sval::Tag> { Some(tags_of::CONTAINER2) }
#[derive(Value)]
#[sval(tag = "tags_of::CONTAINER2", label = "both", index = 2, unindexed_fields)] pub struct S77 { first: i32, r#type: &'static str }
pub fn ref_S77<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S77, stream: &mut St) -> sval::Result {
    stream.record_begin(Some(&tags_of::CONTAINER2), Some(&sval::Label::new("both")), Some(&sval::Index::from(2isize)), Some(2))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(Some(&tags_of::CONTAINER2), Some(&sval::Label::new("both")), Some(&sval::Index::from(2isize)))?;
    Ok(())
}
pub fn tag_S77(_: &S77) -> Option<sval::Tag> { Some(tags_of::CONTAINER2) }
#[derive(Value)]
#[sval(tag = "tags_of::CONTAINER2", label = "both", index = 2, unindexed_fields)] pub struct S78(i32, &'static str);
pub fn ref_S78<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S78, stream: &mut St) -> sval::Result {
    stream.tagged_begin(Some(&tags_of::CONTAINER2), Some(&sval::Label::new("both")), Some(&sval::Index::from(2isize)))?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(Some(&tags_of::CONTAINER2), Some(&sval::Label::new("both")), Some(&sval::Index::from(2isize)))?;
    Ok(())
}
pub fn tag_S78(_: &S78) -> Option<sval::Tag> { Some(tags_of::CONTAINER2) }
#[derive(Value)]
#[sval(tag = "tags_of::CONTAINER2", label = "both", index = 2, unlabeled_fields, unindexed_fields)] pub struct S79 { first: i32, r#type: &'static str }
pub fn ref_S79<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S79, stream: &mut St) -> sval::Result {
    stream.tagged_begin(Some(&tags_of::CONTAINER2), Some(&sval::Label::new("both")), Some(&sval::Index::from(2isize)))?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.first)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.r#type)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(Some(&tags_of::CONTAINER2), Some(&sval::Label::new("both")), Some(&sval::Index::from(2isize)))?;
    Ok(())
}
pub fn tag_S79(_: &S79) -> Option<sval::Tag> { Some(tags_of::CONTAINER2) }
#[derive(Value)]
#[sval(tag = "tags_of::CONTAINER2", label = "both", index = 2, unlabeled_fields, unindexed_fields)] pub struct S80(i32, &'static str);
pub fn ref_S80<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S80, stream: &mut St) -> sval::Result {
    stream.tagged_begin(Some(&tags_of::CONTAINER2), Some(&sval::Label::new("both")), Some(&sval::Index::from(2isize)))?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(Some(&tags_of::CONTAINER2), Some(&sval::Label::new("both")), Some(&sval::Index::from(2isize)))?;
    Ok(())
}
pub fn tag_S80(_: &S80) -> Option<sval::Tag> { Some(tags_of::CONTAINER2) }
#[derive(Value)]
#[sval(transparent)] pub struct S81(i32);
pub fn ref_S81<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S81, stream: &mut St) -> sval::Result {
    stream.value(&this.0)?;
    Ok(())
}
#[derive(Value)]
#[sval(transparent)] pub struct S82<T>(T);
pub fn ref_S82<'sval, T: sval::Value, St: sval::Stream<'sval> + ?Sized>(this: &'sval S82<T>, stream: &mut St) -> sval::Result {
    stream.value(&this.0)?;
    Ok(())
}
#[derive(Value)]
pub struct S83 {  }
pub fn ref_S83<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S83, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S83").with_tag(&sval::tags::VALUE_IDENT)), None, Some(0))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S83").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S83(_: &S83) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S84();
pub fn ref_S84<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S84, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S84").with_tag(&sval::tags::VALUE_IDENT)), None, Some(0))?;
    stream.tuple_end(None, Some(&sval::Label::new("S84").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S84(_: &S84) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S85 { first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S85<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S85, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S85").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S85").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S85(_: &S85) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S86 { #[sval(tag = "FIELD")] first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S86<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S86, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S86").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S86").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S86(_: &S86) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S87 { first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S87<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S87, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S87").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S87").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S87(_: &S87) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S88 { first: i32, r#type: &'static str, #[sval(tag = "FIELD")] stream: Vec<u8> }
pub fn ref_S88<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S88, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S88").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S88").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S88(_: &S88) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S89 { #[sval(data_tag = DATA)] first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S89<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S89, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S89").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S89").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S89(_: &S89) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S90 { first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S90<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S90, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S90").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S90").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S90(_: &S90) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S91 { first: i32, r#type: &'static str, #[sval(data_tag = DATA)] stream: Vec<u8> }
pub fn ref_S91<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S91, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S91").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.stream)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S91").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S91(_: &S91) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S92 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S92<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S92, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S92").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S92").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S92(_: &S92) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S93 { first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S93<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S93, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S93").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S93").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S93(_: &S93) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S94 { first: i32, r#type: &'static str, #[sval(tag = FIELD2, data_tag = DATA)] stream: Vec<u8> }
pub fn ref_S94<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S94, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S94").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.stream)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S94").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S94(_: &S94) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S95 { #[sval(skip)] first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S95<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S95, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S95").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S95").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S95(_: &S95) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S96 { first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S96<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S96, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S96").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S96").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S96(_: &S96) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S97 { first: i32, r#type: &'static str, #[sval(skip)] stream: Vec<u8> }
pub fn ref_S97<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S97, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S97").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S97").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S97(_: &S97) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S98 { #[sval(flatten)] first: Vec<i32>, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S98<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S98, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S98").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_record_tuple(&mut *stream, &this.first, at)?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.record_tuple_end(None, Some(&sval::Label::new("S98").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S98(_: &S98) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S99 { first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S99<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S99, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S99").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_record_tuple(&mut *stream, &this.r#type, at)?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.record_tuple_end(None, Some(&sval::Label::new("S99").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S99(_: &S99) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S100 { first: i32, r#type: &'static str, #[sval(flatten)] stream: Vec<i32> }
pub fn ref_S100<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S100, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S100").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_record_tuple(&mut *stream, &this.stream, at)?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S100").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S100(_: &S100) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S101 { #[sval(label = "other name")] first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S101<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S101, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S101").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S101").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S101(_: &S101) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S102 { first: i32, #[sval(label = "other name")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S102<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S102, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S102").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S102").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S102(_: &S102) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S103 { first: i32, r#type: &'static str, #[sval(label = "other name")] stream: Vec<u8> }
pub fn ref_S103<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S103, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S103").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S103").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S103(_: &S103) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S104 { #[sval(label = A_LABEL)] first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S104<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S104, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S104").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S104").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S104(_: &S104) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S105 { first: i32, #[sval(label = A_LABEL)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S105<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S105, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S105").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S105").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S105(_: &S105) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S106 { first: i32, r#type: &'static str, #[sval(label = A_LABEL)] stream: Vec<u8> }
pub fn ref_S106<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S106, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S106").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S106").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S106(_: &S106) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S107 { #[sval(label = "")] first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S107<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S107, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S107").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S107").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S107(_: &S107) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S108 { first: i32, #[sval(label = "")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S108<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S108, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S108").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S108").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S108(_: &S108) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S109 { first: i32, r#type: &'static str, #[sval(label = "")] stream: Vec<u8> }
pub fn ref_S109<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S109, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S109").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S109").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S109(_: &S109) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S110 { #[sval(index = 5)] first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S110<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S110, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S110").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(7isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(7isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S110").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S110(_: &S110) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S111 { first: i32, #[sval(index = 5)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S111<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S111, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S111").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S111").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S111(_: &S111) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S112 { first: i32, r#type: &'static str, #[sval(index = 5)] stream: Vec<u8> }
pub fn ref_S112<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S112, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S112").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S112").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S112(_: &S112) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S113 { #[sval(index = -1)] first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S113<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S113, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S113").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S113").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S113(_: &S113) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S114 { first: i32, #[sval(index = -1)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S114<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S114, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S114").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S114").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S114(_: &S114) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S115 { first: i32, r#type: &'static str, #[sval(index = -1)] stream: Vec<u8> }
pub fn ref_S115<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S115, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S115").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S115").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S115(_: &S115) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S116 { #[sval(index = AN_INDEX)] first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S116<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S116, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S116").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S116").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S116(_: &S116) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S117 { first: i32, #[sval(index = AN_INDEX)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S117<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S117, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S117").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S117").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S117(_: &S117) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S118 { first: i32, r#type: &'static str, #[sval(index = AN_INDEX)] stream: Vec<u8> }
pub fn ref_S118<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S118, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S118").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S118").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S118(_: &S118) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S119 { #[sval(tag = "FIELD")] first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S119<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S119, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S119").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S119").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S119(_: &S119) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S120 { #[sval(tag = "FIELD")] first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S120<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S120, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S120").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S120").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S120(_: &S120) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S121 { #[sval(tag = "FIELD")] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S121<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S121, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S121").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S121").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S121(_: &S121) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S122 { #[sval(tag = "FIELD")] first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S122<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S122, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S122").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S122").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S122(_: &S122) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S123 { #[sval(tag = "FIELD")] first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S123<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S123, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S123").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_record_tuple(&mut *stream, &this.r#type, at)?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.record_tuple_end(None, Some(&sval::Label::new("S123").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S123(_: &S123) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S124 { #[sval(tag = "FIELD")] first: i32, #[sval(label = "other name")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S124<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S124, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S124").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S124").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S124(_: &S124) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S125 { #[sval(tag = "FIELD")] first: i32, #[sval(label = A_LABEL)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S125<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S125, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S125").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S125").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S125(_: &S125) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S126 { #[sval(tag = "FIELD")] first: i32, #[sval(label = "")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S126<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S126, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S126").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S126").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S126(_: &S126) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S127 { #[sval(tag = "FIELD")] first: i32, #[sval(index = 5)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S127<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S127, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S127").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S127").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S127(_: &S127) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S128 { #[sval(tag = "FIELD")] first: i32, #[sval(index = -1)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S128<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S128, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S128").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S128").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S128(_: &S128) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S129 { #[sval(tag = "FIELD")] first: i32, #[sval(index = AN_INDEX)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S129<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S129, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S129").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S129").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S129(_: &S129) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S130 { #[sval(data_tag = DATA)] first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S130<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S130, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S130").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S130").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S130(_: &S130) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S131 { #[sval(data_tag = DATA)] first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S131<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S131, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S131").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S131").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S131(_: &S131) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S132 { #[sval(data_tag = DATA)] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S132<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S132, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S132").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S132").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S132(_: &S132) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S133 { #[sval(data_tag = DATA)] first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S133<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S133, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S133").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S133").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S133(_: &S133) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S134 { #[sval(data_tag = DATA)] first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S134<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S134, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S134").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_record_tuple(&mut *stream, &this.r#type, at)?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.record_tuple_end(None, Some(&sval::Label::new("S134").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S134(_: &S134) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S135 { #[sval(data_tag = DATA)] first: i32, #[sval(label = "other name")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S135<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S135, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S135").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S135").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S135(_: &S135) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S136 { #[sval(data_tag = DATA)] first: i32, #[sval(label = A_LABEL)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S136<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S136, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S136").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S136").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S136(_: &S136) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S137 { #[sval(data_tag = DATA)] first: i32, #[sval(label = "")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S137<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S137, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S137").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S137").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S137(_: &S137) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S138 { #[sval(data_tag = DATA)] first: i32, #[sval(index = 5)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S138<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S138, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S138").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S138").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S138(_: &S138) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S139 { #[sval(data_tag = DATA)] first: i32, #[sval(index = -1)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S139<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S139, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S139").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S139").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S139(_: &S139) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S140 { #[sval(data_tag = DATA)] first: i32, #[sval(index = AN_INDEX)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S140<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S140, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S140").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S140").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S140(_: &S140) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S141 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S141<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S141, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S141").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S141").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S141(_: &S141) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S142 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S142<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S142, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S142").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S142").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S142(_: &S142) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S143 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S143<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S143, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S143").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S143").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S143(_: &S143) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S144 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S144<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S144, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S144").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S144").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S144(_: &S144) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S145 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S145<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S145, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S145").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_record_tuple(&mut *stream, &this.r#type, at)?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.record_tuple_end(None, Some(&sval::Label::new("S145").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S145(_: &S145) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S146 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(label = "other name")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S146<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S146, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S146").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S146").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S146(_: &S146) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S147 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(label = A_LABEL)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S147<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S147, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S147").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S147").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S147(_: &S147) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S148 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(label = "")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S148<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S148, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S148").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S148").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S148(_: &S148) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S149 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(index = 5)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S149<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S149, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S149").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S149").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S149(_: &S149) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S150 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(index = -1)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S150<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S150, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S150").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S150").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S150(_: &S150) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S151 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(index = AN_INDEX)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S151<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S151, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S151").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S151").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S151(_: &S151) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S152 { #[sval(skip)] first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S152<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S152, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S152").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S152").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S152(_: &S152) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S153 { #[sval(skip)] first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S153<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S153, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S153").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S153").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S153(_: &S153) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S154 { #[sval(skip)] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S154<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S154, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S154").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S154").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S154(_: &S154) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S155 { #[sval(skip)] first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S155<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S155, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S155").with_tag(&sval::tags::VALUE_IDENT)), None, Some(1))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S155").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S155(_: &S155) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S156 { #[sval(skip)] first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S156<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S156, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S156").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_record_tuple(&mut *stream, &this.r#type, at)?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.record_tuple_end(None, Some(&sval::Label::new("S156").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S156(_: &S156) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S157 { #[sval(skip)] first: i32, #[sval(label = "other name")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S157<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S157, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S157").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S157").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S157(_: &S157) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S158 { #[sval(skip)] first: i32, #[sval(label = A_LABEL)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S158<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S158, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S158").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S158").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S158(_: &S158) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S159 { #[sval(skip)] first: i32, #[sval(label = "")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S159<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S159, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S159").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S159").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S159(_: &S159) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S160 { #[sval(skip)] first: i32, #[sval(index = 5)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S160<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S160, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S160").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S160").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S160(_: &S160) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S161 { #[sval(skip)] first: i32, #[sval(index = -1)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S161<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S161, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S161").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S161").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S161(_: &S161) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S162 { #[sval(skip)] first: i32, #[sval(index = AN_INDEX)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S162<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S162, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S162").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S162").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S162(_: &S162) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S163 { #[sval(flatten)] first: Vec<i32>, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S163<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S163, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S163").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_record_tuple(&mut *stream, &this.first, at)?;
    stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.record_tuple_end(None, Some(&sval::Label::new("S163").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S163(_: &S163) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S164 { #[sval(flatten)] first: Vec<i32>, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S164<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S164, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S164").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_record_tuple(&mut *stream, &this.first, at)?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.record_tuple_end(None, Some(&sval::Label::new("S164").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S164(_: &S164) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S165 { #[sval(flatten)] first: Vec<i32>, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S165<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S165, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S165").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_record_tuple(&mut *stream, &this.first, at)?;
    stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.record_tuple_end(None, Some(&sval::Label::new("S165").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S165(_: &S165) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S166 { #[sval(flatten)] first: Vec<i32>, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S166<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S166, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S166").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_record_tuple(&mut *stream, &this.first, at)?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.record_tuple_end(None, Some(&sval::Label::new("S166").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S166(_: &S166) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S167 { #[sval(flatten)] first: Vec<i32>, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S167<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S167, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S167").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_record_tuple(&mut *stream, &this.first, at)?;
    at = sval_flatten::flatten_to_record_tuple(&mut *stream, &this.r#type, at)?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.record_tuple_end(None, Some(&sval::Label::new("S167").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S167(_: &S167) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S168 { #[sval(flatten)] first: Vec<i32>, #[sval(label = "other name")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S168<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S168, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S168").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_record_tuple(&mut *stream, &this.first, at)?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.record_tuple_end(None, Some(&sval::Label::new("S168").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S168(_: &S168) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S169 { #[sval(flatten)] first: Vec<i32>, #[sval(label = A_LABEL)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S169<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S169, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S169").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_record_tuple(&mut *stream, &this.first, at)?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.record_tuple_end(None, Some(&sval::Label::new("S169").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S169(_: &S169) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S170 { #[sval(flatten)] first: Vec<i32>, #[sval(label = "")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S170<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S170, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S170").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_record_tuple(&mut *stream, &this.first, at)?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.record_tuple_end(None, Some(&sval::Label::new("S170").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S170(_: &S170) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S171 { #[sval(label = "other name")] first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S171<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S171, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S171").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S171").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S171(_: &S171) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S172 { #[sval(label = "other name")] first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S172<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S172, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S172").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S172").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S172(_: &S172) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S173 { #[sval(label = "other name")] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S173<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S173, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S173").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S173").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S173(_: &S173) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S174 { #[sval(label = "other name")] first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S174<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S174, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S174").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S174").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S174(_: &S174) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S175 { #[sval(label = "other name")] first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S175<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S175, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S175").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_record_tuple(&mut *stream, &this.r#type, at)?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.record_tuple_end(None, Some(&sval::Label::new("S175").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S175(_: &S175) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S176 { #[sval(label = "other name")] first: i32, #[sval(label = "other name")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S176<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S176, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S176").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S176").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S176(_: &S176) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S177 { #[sval(label = "other name")] first: i32, #[sval(label = A_LABEL)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S177<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S177, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S177").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S177").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S177(_: &S177) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S178 { #[sval(label = "other name")] first: i32, #[sval(label = "")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S178<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S178, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S178").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S178").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S178(_: &S178) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S179 { #[sval(label = "other name")] first: i32, #[sval(index = 5)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S179<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S179, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S179").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S179").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S179(_: &S179) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S180 { #[sval(label = "other name")] first: i32, #[sval(index = -1)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S180<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S180, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S180").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S180").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S180(_: &S180) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S181 { #[sval(label = "other name")] first: i32, #[sval(index = AN_INDEX)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S181<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S181, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S181").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S181").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S181(_: &S181) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S182 { #[sval(label = A_LABEL)] first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S182<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S182, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S182").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S182").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S182(_: &S182) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S183 { #[sval(label = A_LABEL)] first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S183<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S183, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S183").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S183").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S183(_: &S183) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S184 { #[sval(label = A_LABEL)] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S184<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S184, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S184").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S184").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S184(_: &S184) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S185 { #[sval(label = A_LABEL)] first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S185<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S185, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S185").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S185").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S185(_: &S185) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S186 { #[sval(label = A_LABEL)] first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S186<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S186, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S186").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_record_tuple(&mut *stream, &this.r#type, at)?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.record_tuple_end(None, Some(&sval::Label::new("S186").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S186(_: &S186) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S187 { #[sval(label = A_LABEL)] first: i32, #[sval(label = "other name")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S187<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S187, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S187").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S187").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S187(_: &S187) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S188 { #[sval(label = A_LABEL)] first: i32, #[sval(label = A_LABEL)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S188<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S188, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S188").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S188").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S188(_: &S188) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S189 { #[sval(label = A_LABEL)] first: i32, #[sval(label = "")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S189<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S189, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S189").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S189").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S189(_: &S189) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S190 { #[sval(label = A_LABEL)] first: i32, #[sval(index = 5)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S190<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S190, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S190").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S190").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S190(_: &S190) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S191 { #[sval(label = A_LABEL)] first: i32, #[sval(index = -1)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S191<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S191, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S191").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S191").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S191(_: &S191) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S192 { #[sval(label = A_LABEL)] first: i32, #[sval(index = AN_INDEX)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S192<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S192, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S192").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S192").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S192(_: &S192) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S193 { #[sval(label = "")] first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S193<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S193, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S193").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S193").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S193(_: &S193) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S194 { #[sval(label = "")] first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S194<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S194, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S194").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S194").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S194(_: &S194) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S195 { #[sval(label = "")] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S195<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S195, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S195").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S195").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S195(_: &S195) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S196 { #[sval(label = "")] first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S196<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S196, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S196").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S196").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S196(_: &S196) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S197 { #[sval(label = "")] first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S197<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S197, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S197").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_record_tuple(&mut *stream, &this.r#type, at)?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.record_tuple_end(None, Some(&sval::Label::new("S197").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S197(_: &S197) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S198 { #[sval(label = "")] first: i32, #[sval(label = "other name")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S198<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S198, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S198").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S198").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S198(_: &S198) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S199 { #[sval(label = "")] first: i32, #[sval(label = A_LABEL)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S199<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S199, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S199").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S199").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S199(_: &S199) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S200 { #[sval(label = "")] first: i32, #[sval(label = "")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S200<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S200, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S200").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S200").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S200(_: &S200) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S201 { #[sval(label = "")] first: i32, #[sval(index = 5)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S201<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S201, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S201").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S201").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S201(_: &S201) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S202 { #[sval(label = "")] first: i32, #[sval(index = -1)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S202<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S202, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S202").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S202").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S202(_: &S202) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S203 { #[sval(label = "")] first: i32, #[sval(index = AN_INDEX)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S203<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S203, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S203").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S203").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S203(_: &S203) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S204 { #[sval(index = 5)] first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S204<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S204, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S204").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(7isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(7isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S204").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S204(_: &S204) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S205 { #[sval(index = 5)] first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S205<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S205, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S205").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(7isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(7isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S205").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S205(_: &S205) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S206 { #[sval(index = 5)] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S206<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S206, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S206").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(7isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(7isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S206").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S206(_: &S206) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S207 { #[sval(index = 5)] first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S207<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S207, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S207").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S207").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S207(_: &S207) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S208 { #[sval(index = 5)] first: i32, #[sval(label = "other name")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S208<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S208, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S208").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(6isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(6isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(7isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(7isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S208").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S208(_: &S208) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S209 { #[sval(index = 5)] first: i32, #[sval(label = A_LABEL)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S209<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S209, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S209").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(6isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(6isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(7isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(7isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S209").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S209(_: &S209) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S210 { #[sval(index = 5)] first: i32, #[sval(label = "")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S210<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S210, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S210").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(6isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(6isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(7isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(7isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S210").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S210(_: &S210) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S211 { #[sval(index = 5)] first: i32, #[sval(index = 5)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S211<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S211, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S211").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S211").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S211(_: &S211) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S212 { #[sval(index = 5)] first: i32, #[sval(index = -1)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S212<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S212, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S212").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S212").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S212(_: &S212) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S213 { #[sval(index = 5)] first: i32, #[sval(index = AN_INDEX)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S213<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S213, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S213").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(7isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(7isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S213").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S213(_: &S213) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S214 { #[sval(index = -1)] first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S214<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S214, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S214").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S214").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S214(_: &S214) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S215 { #[sval(index = -1)] first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S215<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S215, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S215").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S215").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S215(_: &S215) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S216 { #[sval(index = -1)] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S216<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S216, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S216").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S216").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S216(_: &S216) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S217 { #[sval(index = -1)] first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S217<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S217, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S217").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S217").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S217(_: &S217) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S218 { #[sval(index = -1)] first: i32, #[sval(label = "other name")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S218<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S218, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S218").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(0isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(0isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S218").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S218(_: &S218) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S219 { #[sval(index = -1)] first: i32, #[sval(label = A_LABEL)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S219<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S219, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S219").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(0isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(0isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S219").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S219(_: &S219) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S220 { #[sval(index = -1)] first: i32, #[sval(label = "")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S220<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S220, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S220").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(0isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(0isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S220").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S220(_: &S220) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S221 { #[sval(index = -1)] first: i32, #[sval(index = 5)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S221<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S221, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S221").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S221").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S221(_: &S221) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S222 { #[sval(index = -1)] first: i32, #[sval(index = -1)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S222<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S222, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S222").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S222").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S222(_: &S222) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S223 { #[sval(index = -1)] first: i32, #[sval(index = AN_INDEX)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S223<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S223, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S223").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S223").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S223(_: &S223) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S224 { #[sval(index = AN_INDEX)] first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S224<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S224, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S224").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S224").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S224(_: &S224) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S225 { #[sval(index = AN_INDEX)] first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S225<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S225, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S225").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S225").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S225(_: &S225) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S226 { #[sval(index = AN_INDEX)] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S226<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S226, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S226").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S226").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S226(_: &S226) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S227 { #[sval(index = AN_INDEX)] first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S227<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S227, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S227").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S227").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S227(_: &S227) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S228 { #[sval(index = AN_INDEX)] first: i32, #[sval(label = "other name")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S228<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S228, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S228").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(1isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(1isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S228").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S228(_: &S228) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S229 { #[sval(index = AN_INDEX)] first: i32, #[sval(label = A_LABEL)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S229<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S229, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S229").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(1isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(1isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S229").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S229(_: &S229) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S230 { #[sval(index = AN_INDEX)] first: i32, #[sval(label = "")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S230<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S230, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S230").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(1isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(1isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S230").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S230(_: &S230) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S231 { #[sval(index = AN_INDEX)] first: i32, #[sval(index = 5)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S231<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S231, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S231").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S231").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S231(_: &S231) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S232 { #[sval(index = AN_INDEX)] first: i32, #[sval(index = -1)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S232<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S232, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S232").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S232").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S232(_: &S232) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S233 { #[sval(index = AN_INDEX)] first: i32, #[sval(index = AN_INDEX)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S233<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S233, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S233").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.value(&this.stream)?;
    stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S233").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S233(_: &S233) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S234 { first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S234<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S234, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S234").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S234").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S234(_: &S234) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S235 { #[sval(tag = "FIELD")] first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S235<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S235, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S235").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S235").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S235(_: &S235) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S236 { first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S236<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S236, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S236").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S236").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S236(_: &S236) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S237 { first: i32, r#type: &'static str, #[sval(tag = "FIELD")] stream: Vec<u8> }
pub fn ref_S237<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S237, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S237").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S237").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S237(_: &S237) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S238 { #[sval(data_tag = DATA)] first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S238<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S238, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S238").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S238").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S238(_: &S238) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S239 { first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S239<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S239, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S239").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S239").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S239(_: &S239) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S240 { first: i32, r#type: &'static str, #[sval(data_tag = DATA)] stream: Vec<u8> }
pub fn ref_S240<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S240, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S240").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.stream)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S240").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S240(_: &S240) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S241 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S241<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S241, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S241").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S241").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S241(_: &S241) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S242 { first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S242<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S242, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S242").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S242").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S242(_: &S242) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S243 { first: i32, r#type: &'static str, #[sval(tag = FIELD2, data_tag = DATA)] stream: Vec<u8> }
pub fn ref_S243<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S243, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S243").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.stream)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S243").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S243(_: &S243) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S244 { #[sval(skip)] first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S244<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S244, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S244").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S244").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S244(_: &S244) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S245 { first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S245<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S245, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S245").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S245").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S245(_: &S245) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S246 { first: i32, r#type: &'static str, #[sval(skip)] stream: Vec<u8> }
pub fn ref_S246<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S246, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S246").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S246").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S246(_: &S246) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S247 { #[sval(flatten)] first: Vec<i32>, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S247<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S247, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S247").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.first, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S247").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S247(_: &S247) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S248 { first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S248<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S248, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S248").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.r#type, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S248").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S248(_: &S248) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S249 { first: i32, r#type: &'static str, #[sval(flatten)] stream: Vec<i32> }
pub fn ref_S249<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S249, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S249").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.stream, at)?;
    stream.tuple_end(None, Some(&sval::Label::new("S249").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S249(_: &S249) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S250 { #[sval(index = 5)] first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S250<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S250, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S250").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(7isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(7isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S250").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S250(_: &S250) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S251 { first: i32, #[sval(index = 5)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S251<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S251, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S251").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S251").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S251(_: &S251) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S252 { first: i32, r#type: &'static str, #[sval(index = 5)] stream: Vec<u8> }
pub fn ref_S252<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S252, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S252").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S252").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S252(_: &S252) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S253 { #[sval(index = -1)] first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S253<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S253, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S253").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S253").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S253(_: &S253) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S254 { first: i32, #[sval(index = -1)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S254<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S254, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S254").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S254").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S254(_: &S254) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S255 { first: i32, r#type: &'static str, #[sval(index = -1)] stream: Vec<u8> }
pub fn ref_S255<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S255, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S255").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S255").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S255(_: &S255) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S256 { #[sval(index = AN_INDEX)] first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S256<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S256, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S256").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S256").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S256(_: &S256) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S257 { first: i32, #[sval(index = AN_INDEX)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S257<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S257, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S257").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S257").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S257(_: &S257) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S258 { first: i32, r#type: &'static str, #[sval(index = AN_INDEX)] stream: Vec<u8> }
pub fn ref_S258<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S258, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S258").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_end(None, Some(&sval::Label::new("S258").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S258(_: &S258) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S259 { #[sval(tag = "FIELD")] first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S259<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S259, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S259").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S259").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S259(_: &S259) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S260 { #[sval(tag = "FIELD")] first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S260<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S260, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S260").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S260").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S260(_: &S260) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S261 { #[sval(tag = "FIELD")] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S261<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S261, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S261").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S261").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S261(_: &S261) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S262 { #[sval(tag = "FIELD")] first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S262<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S262, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S262").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S262").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S262(_: &S262) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S263 { #[sval(tag = "FIELD")] first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S263<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S263, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S263").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.r#type, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S263").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S263(_: &S263) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S264 { #[sval(tag = "FIELD")] first: i32, #[sval(index = 5)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S264<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S264, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S264").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S264").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S264(_: &S264) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S265 { #[sval(tag = "FIELD")] first: i32, #[sval(index = -1)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S265<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S265, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S265").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S265").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S265(_: &S265) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S266 { #[sval(tag = "FIELD")] first: i32, #[sval(index = AN_INDEX)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S266<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S266, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S266").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S266").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S266(_: &S266) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S267 { #[sval(data_tag = DATA)] first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S267<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S267, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S267").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S267").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S267(_: &S267) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S268 { #[sval(data_tag = DATA)] first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S268<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S268, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S268").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S268").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S268(_: &S268) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S269 { #[sval(data_tag = DATA)] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S269<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S269, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S269").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S269").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S269(_: &S269) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S270 { #[sval(data_tag = DATA)] first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S270<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S270, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S270").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S270").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S270(_: &S270) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S271 { #[sval(data_tag = DATA)] first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S271<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S271, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S271").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.r#type, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S271").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S271(_: &S271) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S272 { #[sval(data_tag = DATA)] first: i32, #[sval(index = 5)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S272<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S272, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S272").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S272").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S272(_: &S272) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S273 { #[sval(data_tag = DATA)] first: i32, #[sval(index = -1)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S273<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S273, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S273").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S273").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S273(_: &S273) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S274 { #[sval(data_tag = DATA)] first: i32, #[sval(index = AN_INDEX)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S274<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S274, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S274").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S274").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S274(_: &S274) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S275 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S275<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S275, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S275").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S275").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S275(_: &S275) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S276 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S276<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S276, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S276").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S276").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S276(_: &S276) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S277 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S277<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S277, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S277").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S277").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S277(_: &S277) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S278 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S278<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S278, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S278").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S278").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S278(_: &S278) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S279 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S279<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S279, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S279").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.r#type, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S279").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S279(_: &S279) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S280 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(index = 5)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S280<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S280, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S280").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S280").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S280(_: &S280) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S281 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(index = -1)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S281<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S281, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S281").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S281").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S281(_: &S281) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S282 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(index = AN_INDEX)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S282<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S282, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S282").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S282").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S282(_: &S282) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S283 { #[sval(skip)] first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S283<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S283, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S283").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S283").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S283(_: &S283) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S284 { #[sval(skip)] first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S284<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S284, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S284").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S284").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S284(_: &S284) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S285 { #[sval(skip)] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S285<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S285, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S285").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S285").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S285(_: &S285) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S286 { #[sval(skip)] first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S286<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S286, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S286").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.r#type, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S286").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S286(_: &S286) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S287 { #[sval(skip)] first: i32, #[sval(index = 5)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S287<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S287, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S287").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S287").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S287(_: &S287) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S288 { #[sval(skip)] first: i32, #[sval(index = -1)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S288<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S288, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S288").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S288").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S288(_: &S288) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S289 { #[sval(skip)] first: i32, #[sval(index = AN_INDEX)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S289<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S289, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S289").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S289").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S289(_: &S289) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S290 { #[sval(flatten)] first: Vec<i32>, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S290<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S290, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S290").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.first, at)?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S290").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S290(_: &S290) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S291 { #[sval(flatten)] first: Vec<i32>, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S291<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S291, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S291").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.first, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S291").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S291(_: &S291) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S292 { #[sval(flatten)] first: Vec<i32>, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S292<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S292, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S292").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.first, at)?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S292").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S292(_: &S292) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S293 { #[sval(flatten)] first: Vec<i32>, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S293<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S293, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S293").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.first, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S293").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S293(_: &S293) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S294 { #[sval(flatten)] first: Vec<i32>, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S294<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S294, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S294").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.first, at)?;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.r#type, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S294").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S294(_: &S294) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S295 { #[sval(index = 5)] first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S295<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S295, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S295").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(6isize))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(6isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(7isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(7isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S295").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S295(_: &S295) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S296 { #[sval(index = 5)] first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S296<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S296, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S296").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(7isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(7isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S296").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S296(_: &S296) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S297 { #[sval(index = 5)] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S297<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S297, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S297").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(6isize))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(6isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(7isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(7isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S297").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S297(_: &S297) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S298 { #[sval(index = 5)] first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S298<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S298, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S298").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S298").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S298(_: &S298) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S299 { #[sval(index = 5)] first: i32, #[sval(index = 5)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S299<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S299, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S299").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S299").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S299(_: &S299) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S300 { #[sval(index = 5)] first: i32, #[sval(index = -1)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S300<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S300, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S300").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S300").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S300(_: &S300) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S301 { #[sval(index = 5)] first: i32, #[sval(index = AN_INDEX)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S301<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S301, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S301").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(7isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(7isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S301").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S301(_: &S301) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S302 { #[sval(index = -1)] first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S302<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S302, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S302").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S302").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S302(_: &S302) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S303 { #[sval(index = -1)] first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S303<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S303, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S303").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S303").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S303(_: &S303) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S304 { #[sval(index = -1)] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S304<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S304, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S304").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S304").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S304(_: &S304) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S305 { #[sval(index = -1)] first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S305<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S305, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S305").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S305").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S305(_: &S305) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S306 { #[sval(index = -1)] first: i32, #[sval(index = 5)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S306<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S306, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S306").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S306").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S306(_: &S306) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S307 { #[sval(index = -1)] first: i32, #[sval(index = -1)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S307<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S307, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S307").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S307").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S307(_: &S307) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S308 { #[sval(index = -1)] first: i32, #[sval(index = AN_INDEX)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S308<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S308, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S308").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S308").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S308(_: &S308) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S309 { #[sval(index = AN_INDEX)] first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S309<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S309, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S309").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(1isize))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S309").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S309(_: &S309) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S310 { #[sval(index = AN_INDEX)] first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S310<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S310, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S310").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S310").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S310(_: &S310) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S311 { #[sval(index = AN_INDEX)] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S311<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S311, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S311").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(1isize))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S311").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S311(_: &S311) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S312 { #[sval(index = AN_INDEX)] first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S312<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S312, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S312").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S312").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S312(_: &S312) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S313 { #[sval(index = AN_INDEX)] first: i32, #[sval(index = 5)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S313<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S313, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S313").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S313").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S313(_: &S313) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S314 { #[sval(index = AN_INDEX)] first: i32, #[sval(index = -1)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S314<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S314, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S314").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S314").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S314(_: &S314) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S315 { #[sval(index = AN_INDEX)] first: i32, #[sval(index = AN_INDEX)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S315<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S315, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S315").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize))?;
    stream.value(&this.stream)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S315").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S315(_: &S315) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S316 { first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S316<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S316, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S316").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S316").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S316(_: &S316) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S317 { #[sval(tag = "FIELD")] first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S317<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S317, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S317").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S317").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S317(_: &S317) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S318 { first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S318<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S318, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S318").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S318").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S318(_: &S318) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S319 { first: i32, r#type: &'static str, #[sval(tag = "FIELD")] stream: Vec<u8> }
pub fn ref_S319<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S319, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S319").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(Some(&FIELD), &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(Some(&FIELD), &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S319").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S319(_: &S319) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S320 { #[sval(data_tag = DATA)] first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S320<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S320, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S320").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S320").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S320(_: &S320) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S321 { first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S321<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S321, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S321").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S321").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S321(_: &S321) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S322 { first: i32, r#type: &'static str, #[sval(data_tag = DATA)] stream: Vec<u8> }
pub fn ref_S322<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S322, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S322").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.stream)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S322").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S322(_: &S322) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S323 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S323<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S323, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S323").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S323").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S323(_: &S323) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S324 { first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S324<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S324, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S324").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S324").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S324(_: &S324) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S325 { first: i32, r#type: &'static str, #[sval(tag = FIELD2, data_tag = DATA)] stream: Vec<u8> }
pub fn ref_S325<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S325, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S325").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(Some(&FIELD2), &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.stream)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(Some(&FIELD2), &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S325").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S325(_: &S325) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S326 { #[sval(skip)] first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S326<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S326, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S326").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S326").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S326(_: &S326) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S327 { first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S327<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S327, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S327").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S327").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S327(_: &S327) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S328 { first: i32, r#type: &'static str, #[sval(skip)] stream: Vec<u8> }
pub fn ref_S328<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S328, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S328").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S328").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S328(_: &S328) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S329 { #[sval(flatten)] first: Vec<i32>, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S329<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S329, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S329").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_record(&mut *stream, &this.first, at)?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S329").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S329(_: &S329) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S330 { first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S330<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S330, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S330").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    at = sval_flatten::flatten_to_record(&mut *stream, &this.r#type, at)?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S330").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S330(_: &S330) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S331 { first: i32, r#type: &'static str, #[sval(flatten)] stream: Vec<i32> }
pub fn ref_S331<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S331, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S331").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    at = sval_flatten::flatten_to_record(&mut *stream, &this.stream, at)?;
    stream.record_end(None, Some(&sval::Label::new("S331").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S331(_: &S331) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S332 { #[sval(label = "other name")] first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S332<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S332, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S332").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new("other name"))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("other name"))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S332").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S332(_: &S332) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S333 { first: i32, #[sval(label = "other name")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S333<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S333, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S333").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("other name"))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("other name"))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S333").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S333(_: &S333) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S334 { first: i32, r#type: &'static str, #[sval(label = "other name")] stream: Vec<u8> }
pub fn ref_S334<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S334, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S334").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("other name"))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("other name"))?;
    stream.record_end(None, Some(&sval::Label::new("S334").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S334(_: &S334) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S335 { #[sval(label = A_LABEL)] first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S335<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S335, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S335").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &A_LABEL)?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &A_LABEL)?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S335").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S335(_: &S335) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S336 { first: i32, #[sval(label = A_LABEL)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S336<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S336, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S336").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &A_LABEL)?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &A_LABEL)?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S336").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S336(_: &S336) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S337 { first: i32, r#type: &'static str, #[sval(label = A_LABEL)] stream: Vec<u8> }
pub fn ref_S337<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S337, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S337").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &A_LABEL)?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &A_LABEL)?;
    stream.record_end(None, Some(&sval::Label::new("S337").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S337(_: &S337) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S338 { #[sval(label = "")] first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S338<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S338, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S338").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new(""))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new(""))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S338").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S338(_: &S338) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S339 { first: i32, #[sval(label = "")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S339<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S339, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S339").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new(""))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new(""))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S339").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S339(_: &S339) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S340 { first: i32, r#type: &'static str, #[sval(label = "")] stream: Vec<u8> }
pub fn ref_S340<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S340, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S340").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new(""))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new(""))?;
    stream.record_end(None, Some(&sval::Label::new("S340").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S340(_: &S340) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S341 { #[sval(tag = "FIELD")] first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S341<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S341, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S341").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S341").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S341(_: &S341) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S342 { #[sval(tag = "FIELD")] first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S342<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S342, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S342").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S342").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S342(_: &S342) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S343 { #[sval(tag = "FIELD")] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S343<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S343, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S343").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S343").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S343(_: &S343) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S344 { #[sval(tag = "FIELD")] first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S344<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S344, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S344").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_value_begin(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S344").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S344(_: &S344) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S345 { #[sval(tag = "FIELD")] first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S345<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S345, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S345").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.record_value_begin(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    at = sval_flatten::flatten_to_record(&mut *stream, &this.r#type, at)?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S345").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S345(_: &S345) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S346 { #[sval(tag = "FIELD")] first: i32, #[sval(label = "other name")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S346<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S346, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S346").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("other name"))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("other name"))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S346").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S346(_: &S346) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S347 { #[sval(tag = "FIELD")] first: i32, #[sval(label = A_LABEL)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S347<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S347, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S347").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &A_LABEL)?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &A_LABEL)?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S347").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S347(_: &S347) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S348 { #[sval(tag = "FIELD")] first: i32, #[sval(label = "")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S348<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S348, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S348").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new(""))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new(""))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S348").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S348(_: &S348) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S349 { #[sval(data_tag = DATA)] first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S349<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S349, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S349").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S349").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S349(_: &S349) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S350 { #[sval(data_tag = DATA)] first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S350<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S350, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S350").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S350").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S350(_: &S350) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S351 { #[sval(data_tag = DATA)] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S351<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S351, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S351").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S351").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S351(_: &S351) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S352 { #[sval(data_tag = DATA)] first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S352<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S352, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S352").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S352").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S352(_: &S352) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S353 { #[sval(data_tag = DATA)] first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S353<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S353, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S353").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    at = sval_flatten::flatten_to_record(&mut *stream, &this.r#type, at)?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S353").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S353(_: &S353) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S354 { #[sval(data_tag = DATA)] first: i32, #[sval(label = "other name")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S354<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S354, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S354").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("other name"))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("other name"))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S354").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S354(_: &S354) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S355 { #[sval(data_tag = DATA)] first: i32, #[sval(label = A_LABEL)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S355<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S355, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S355").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &A_LABEL)?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &A_LABEL)?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S355").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S355(_: &S355) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S356 { #[sval(data_tag = DATA)] first: i32, #[sval(label = "")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S356<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S356, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S356").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new(""))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new(""))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S356").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S356(_: &S356) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S357 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S357<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S357, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S357").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S357").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S357(_: &S357) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S358 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S358<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S358, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S358").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S358").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S358(_: &S358) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S359 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S359<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S359, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S359").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S359").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S359(_: &S359) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S360 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S360<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S360, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S360").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_value_begin(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S360").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S360(_: &S360) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S361 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S361<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S361, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S361").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.record_value_begin(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    at = sval_flatten::flatten_to_record(&mut *stream, &this.r#type, at)?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S361").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S361(_: &S361) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S362 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(label = "other name")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S362<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S362, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S362").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("other name"))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("other name"))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S362").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S362(_: &S362) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S363 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(label = A_LABEL)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S363<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S363, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S363").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &A_LABEL)?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &A_LABEL)?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S363").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S363(_: &S363) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S364 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(label = "")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S364<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S364, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S364").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new(""))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new(""))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S364").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S364(_: &S364) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S365 { #[sval(skip)] first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S365<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S365, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S365").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_value_begin(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S365").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S365(_: &S365) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S366 { #[sval(skip)] first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S366<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S366, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S366").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S366").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S366(_: &S366) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S367 { #[sval(skip)] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S367<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S367, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S367").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_value_begin(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S367").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S367(_: &S367) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S368 { #[sval(skip)] first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S368<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S368, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S368").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_record(&mut *stream, &this.r#type, at)?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S368").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S368(_: &S368) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S369 { #[sval(skip)] first: i32, #[sval(label = "other name")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S369<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S369, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S369").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_value_begin(None, &sval::Label::new("other name"))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("other name"))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S369").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S369(_: &S369) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S370 { #[sval(skip)] first: i32, #[sval(label = A_LABEL)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S370<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S370, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S370").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_value_begin(None, &A_LABEL)?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &A_LABEL)?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S370").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S370(_: &S370) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S371 { #[sval(skip)] first: i32, #[sval(label = "")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S371<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S371, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S371").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_value_begin(None, &sval::Label::new(""))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new(""))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S371").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S371(_: &S371) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S372 { #[sval(flatten)] first: Vec<i32>, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S372<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S372, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S372").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_record(&mut *stream, &this.first, at)?;
    stream.record_value_begin(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S372").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S372(_: &S372) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S373 { #[sval(flatten)] first: Vec<i32>, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S373<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S373, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S373").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_record(&mut *stream, &this.first, at)?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S373").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S373(_: &S373) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S374 { #[sval(flatten)] first: Vec<i32>, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S374<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S374, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S374").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_record(&mut *stream, &this.first, at)?;
    stream.record_value_begin(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S374").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S374(_: &S374) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S375 { #[sval(flatten)] first: Vec<i32>, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S375<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S375, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S375").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_record(&mut *stream, &this.first, at)?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S375").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S375(_: &S375) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S376 { #[sval(flatten)] first: Vec<i32>, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S376<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S376, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S376").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_record(&mut *stream, &this.first, at)?;
    at = sval_flatten::flatten_to_record(&mut *stream, &this.r#type, at)?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S376").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S376(_: &S376) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S377 { #[sval(flatten)] first: Vec<i32>, #[sval(label = "other name")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S377<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S377, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S377").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_record(&mut *stream, &this.first, at)?;
    stream.record_value_begin(None, &sval::Label::new("other name"))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("other name"))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S377").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S377(_: &S377) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S378 { #[sval(flatten)] first: Vec<i32>, #[sval(label = A_LABEL)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S378<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S378, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S378").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_record(&mut *stream, &this.first, at)?;
    stream.record_value_begin(None, &A_LABEL)?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &A_LABEL)?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S378").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S378(_: &S378) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S379 { #[sval(flatten)] first: Vec<i32>, #[sval(label = "")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S379<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S379, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S379").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_record(&mut *stream, &this.first, at)?;
    stream.record_value_begin(None, &sval::Label::new(""))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new(""))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S379").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S379(_: &S379) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S380 { #[sval(label = "other name")] first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S380<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S380, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S380").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new("other name"))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("other name"))?;
    stream.record_value_begin(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S380").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S380(_: &S380) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S381 { #[sval(label = "other name")] first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S381<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S381, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S381").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new("other name"))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("other name"))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S381").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S381(_: &S381) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S382 { #[sval(label = "other name")] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S382<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S382, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S382").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new("other name"))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("other name"))?;
    stream.record_value_begin(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S382").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S382(_: &S382) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S383 { #[sval(label = "other name")] first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S383<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S383, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S383").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_value_begin(None, &sval::Label::new("other name"))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("other name"))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S383").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S383(_: &S383) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S384 { #[sval(label = "other name")] first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S384<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S384, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S384").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.record_value_begin(None, &sval::Label::new("other name"))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("other name"))?;
    at = sval_flatten::flatten_to_record(&mut *stream, &this.r#type, at)?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S384").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S384(_: &S384) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S385 { #[sval(label = "other name")] first: i32, #[sval(label = "other name")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S385<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S385, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S385").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new("other name"))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("other name"))?;
    stream.record_value_begin(None, &sval::Label::new("other name"))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("other name"))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S385").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S385(_: &S385) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S386 { #[sval(label = "other name")] first: i32, #[sval(label = A_LABEL)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S386<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S386, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S386").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new("other name"))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("other name"))?;
    stream.record_value_begin(None, &A_LABEL)?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &A_LABEL)?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S386").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S386(_: &S386) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S387 { #[sval(label = "other name")] first: i32, #[sval(label = "")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S387<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S387, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S387").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new("other name"))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("other name"))?;
    stream.record_value_begin(None, &sval::Label::new(""))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new(""))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S387").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S387(_: &S387) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S388 { #[sval(label = A_LABEL)] first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S388<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S388, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S388").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &A_LABEL)?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &A_LABEL)?;
    stream.record_value_begin(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S388").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S388(_: &S388) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S389 { #[sval(label = A_LABEL)] first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S389<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S389, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S389").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &A_LABEL)?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &A_LABEL)?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S389").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S389(_: &S389) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S390 { #[sval(label = A_LABEL)] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S390<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S390, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S390").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &A_LABEL)?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &A_LABEL)?;
    stream.record_value_begin(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S390").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S390(_: &S390) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S391 { #[sval(label = A_LABEL)] first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S391<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S391, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S391").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_value_begin(None, &A_LABEL)?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &A_LABEL)?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S391").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S391(_: &S391) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S392 { #[sval(label = A_LABEL)] first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S392<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S392, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S392").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.record_value_begin(None, &A_LABEL)?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &A_LABEL)?;
    at = sval_flatten::flatten_to_record(&mut *stream, &this.r#type, at)?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S392").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S392(_: &S392) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S393 { #[sval(label = A_LABEL)] first: i32, #[sval(label = "other name")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S393<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S393, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S393").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &A_LABEL)?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &A_LABEL)?;
    stream.record_value_begin(None, &sval::Label::new("other name"))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("other name"))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S393").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S393(_: &S393) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S394 { #[sval(label = A_LABEL)] first: i32, #[sval(label = A_LABEL)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S394<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S394, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S394").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &A_LABEL)?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &A_LABEL)?;
    stream.record_value_begin(None, &A_LABEL)?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &A_LABEL)?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S394").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S394(_: &S394) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S395 { #[sval(label = A_LABEL)] first: i32, #[sval(label = "")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S395<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S395, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S395").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &A_LABEL)?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &A_LABEL)?;
    stream.record_value_begin(None, &sval::Label::new(""))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new(""))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S395").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S395(_: &S395) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S396 { #[sval(label = "")] first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S396<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S396, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S396").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new(""))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new(""))?;
    stream.record_value_begin(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S396").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S396(_: &S396) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S397 { #[sval(label = "")] first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S397<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S397, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S397").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new(""))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new(""))?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S397").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S397(_: &S397) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S398 { #[sval(label = "")] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S398<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S398, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S398").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new(""))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new(""))?;
    stream.record_value_begin(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S398").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S398(_: &S398) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S399 { #[sval(label = "")] first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S399<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S399, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S399").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_value_begin(None, &sval::Label::new(""))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new(""))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S399").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S399(_: &S399) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S400 { #[sval(label = "")] first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S400<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S400, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S400").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.record_value_begin(None, &sval::Label::new(""))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new(""))?;
    at = sval_flatten::flatten_to_record(&mut *stream, &this.r#type, at)?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S400").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S400(_: &S400) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S401 { #[sval(label = "")] first: i32, #[sval(label = "other name")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S401<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S401, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S401").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new(""))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new(""))?;
    stream.record_value_begin(None, &sval::Label::new("other name"))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("other name"))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S401").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S401(_: &S401) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S402 { #[sval(label = "")] first: i32, #[sval(label = A_LABEL)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S402<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S402, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S402").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new(""))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new(""))?;
    stream.record_value_begin(None, &A_LABEL)?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &A_LABEL)?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S402").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S402(_: &S402) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S403 { #[sval(label = "")] first: i32, #[sval(label = "")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S403<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S403, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S403").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_value_begin(None, &sval::Label::new(""))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new(""))?;
    stream.record_value_begin(None, &sval::Label::new(""))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new(""))?;
    stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.stream)?;
    stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S403").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S403(_: &S403) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S404 { first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S404<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S404, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S404").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.first)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.r#type)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S404").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S404(_: &S404) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S405 { #[sval(tag = "FIELD")] first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S405<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S405, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S405").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.first)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.r#type)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S405").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S405(_: &S405) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S406 { first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S406<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S406, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S406").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.first)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.r#type)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S406").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S406(_: &S406) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S407 { first: i32, r#type: &'static str, #[sval(tag = "FIELD")] stream: Vec<u8> }
pub fn ref_S407<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S407, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S407").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.first)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.r#type)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S407").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S407(_: &S407) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S408 { #[sval(data_tag = DATA)] first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S408<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S408, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S408").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.r#type)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S408").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S408(_: &S408) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S409 { first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S409<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S409, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S409").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.first)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S409").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S409(_: &S409) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S410 { first: i32, r#type: &'static str, #[sval(data_tag = DATA)] stream: Vec<u8> }
pub fn ref_S410<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S410, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S410").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.first)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.r#type)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.stream)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S410").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S410(_: &S410) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S411 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S411<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S411, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S411").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.r#type)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S411").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S411(_: &S411) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S412 { first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S412<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S412, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S412").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.first)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S412").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S412(_: &S412) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S413 { first: i32, r#type: &'static str, #[sval(tag = FIELD2, data_tag = DATA)] stream: Vec<u8> }
pub fn ref_S413<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S413, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S413").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.first)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.r#type)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.stream)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S413").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S413(_: &S413) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S414 { #[sval(skip)] first: i32, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S414<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S414, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S414").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.r#type)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S414").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S414(_: &S414) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S415 { first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S415<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S415, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S415").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.first)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S415").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S415(_: &S415) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S416 { first: i32, r#type: &'static str, #[sval(skip)] stream: Vec<u8> }
pub fn ref_S416<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S416, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S416").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.first)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.r#type)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S416").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S416(_: &S416) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S417 { #[sval(flatten)] first: Vec<i32>, r#type: &'static str, stream: Vec<u8> }
pub fn ref_S417<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S417, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S417").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.first)?;
    stream.seq_value_begin()?;
    stream.value(&this.r#type)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S417").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S417(_: &S417) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S418 { first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S418<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S418, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S418").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    stream.seq_value_begin()?;
    stream.value(&this.first)?;
    stream.seq_value_end()?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.r#type)?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S418").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S418(_: &S418) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S419 { first: i32, r#type: &'static str, #[sval(flatten)] stream: Vec<i32> }
pub fn ref_S419<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S419, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S419").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    stream.seq_value_begin()?;
    stream.value(&this.first)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.r#type)?;
    stream.seq_value_end()?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.stream)?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S419").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S419(_: &S419) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S420 { #[sval(tag = "FIELD")] first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S420<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S420, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S420").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.first)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.r#type)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S420").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S420(_: &S420) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S421 { #[sval(tag = "FIELD")] first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S421<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S421, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S421").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.first)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S421").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S421(_: &S421) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S422 { #[sval(tag = "FIELD")] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S422<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S422, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S422").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.first)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S422").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S422(_: &S422) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S423 { #[sval(tag = "FIELD")] first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S423<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S423, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S423").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.first)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S423").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S423(_: &S423) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S424 { #[sval(tag = "FIELD")] first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S424<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S424, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S424").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    stream.seq_value_begin()?;
    stream.value(&this.first)?;
    stream.seq_value_end()?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.r#type)?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S424").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S424(_: &S424) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S425 { #[sval(data_tag = DATA)] first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S425<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S425, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S425").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.r#type)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S425").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S425(_: &S425) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S426 { #[sval(data_tag = DATA)] first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S426<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S426, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S426").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S426").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S426(_: &S426) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S427 { #[sval(data_tag = DATA)] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S427<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S427, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S427").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S427").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S427(_: &S427) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S428 { #[sval(data_tag = DATA)] first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S428<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S428, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S428").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S428").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S428(_: &S428) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S429 { #[sval(data_tag = DATA)] first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S429<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S429, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S429").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.r#type)?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S429").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S429(_: &S429) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S430 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S430<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S430, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S430").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.r#type)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S430").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S430(_: &S430) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S431 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S431<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S431, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S431").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S431").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S431(_: &S431) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S432 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S432<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S432, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S432").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S432").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S432(_: &S432) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S433 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S433<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S433, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S433").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S433").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S433(_: &S433) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S434 { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S434<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S434, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S434").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.first)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.r#type)?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S434").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S434(_: &S434) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S435 { #[sval(skip)] first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S435<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S435, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S435").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.r#type)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S435").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S435(_: &S435) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S436 { #[sval(skip)] first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S436<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S436, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S436").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S436").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S436(_: &S436) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S437 { #[sval(skip)] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S437<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S437, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S437").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S437").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S437(_: &S437) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S438 { #[sval(skip)] first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S438<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S438, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S438").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.r#type)?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S438").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S438(_: &S438) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S439 { #[sval(flatten)] first: Vec<i32>, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S439<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S439, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S439").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.first)?;
    stream.seq_value_begin()?;
    stream.value(&this.r#type)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S439").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S439(_: &S439) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S440 { #[sval(flatten)] first: Vec<i32>, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S440<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S440, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S440").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.first)?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S440").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S440(_: &S440) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S441 { #[sval(flatten)] first: Vec<i32>, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S441<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S441, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S441").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.first)?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.r#type)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S441").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S441(_: &S441) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S442 { #[sval(flatten)] first: Vec<i32>, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }
pub fn ref_S442<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S442, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S442").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.first)?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S442").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S442(_: &S442) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S443 { #[sval(flatten)] first: Vec<i32>, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }
pub fn ref_S443<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S443, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S443").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.first)?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.r#type)?;
    stream.seq_value_begin()?;
    stream.value(&this.stream)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S443").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S443(_: &S443) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S444(i32, &'static str, Vec<u8>);
pub fn ref_S444<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S444, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S444").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S444").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S444(_: &S444) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S445(#[sval(tag = "FIELD")] i32, &'static str, Vec<u8>);
pub fn ref_S445<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S445, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S445").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S445").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S445(_: &S445) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S446(i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S446<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S446, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S446").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S446").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S446(_: &S446) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S447(i32, &'static str, #[sval(tag = "FIELD")] Vec<u8>);
pub fn ref_S447<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S447, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S447").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S447").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S447(_: &S447) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S448(#[sval(data_tag = DATA)] i32, &'static str, Vec<u8>);
pub fn ref_S448<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S448, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S448").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S448").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S448(_: &S448) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S449(i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S449<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S449, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S449").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S449").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S449(_: &S449) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S450(i32, &'static str, #[sval(data_tag = DATA)] Vec<u8>);
pub fn ref_S450<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S450, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S450").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.2)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S450").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S450(_: &S450) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S451(#[sval(tag = FIELD2, data_tag = DATA)] i32, &'static str, Vec<u8>);
pub fn ref_S451<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S451, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S451").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S451").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S451(_: &S451) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S452(i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S452<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S452, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S452").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S452").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S452(_: &S452) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S453(i32, &'static str, #[sval(tag = FIELD2, data_tag = DATA)] Vec<u8>);
pub fn ref_S453<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S453, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S453").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.2)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S453").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S453(_: &S453) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S454(#[sval(skip)] i32, &'static str, Vec<u8>);
pub fn ref_S454<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S454, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S454").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S454").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S454(_: &S454) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S455(i32, #[sval(skip)] &'static str, Vec<u8>);
pub fn ref_S455<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S455, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S455").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S455").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S455(_: &S455) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S456(i32, &'static str, #[sval(skip)] Vec<u8>);
pub fn ref_S456<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S456, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S456").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S456").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S456(_: &S456) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S457(#[sval(flatten)] Vec<i32>, &'static str, Vec<u8>);
pub fn ref_S457<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S457, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S457").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.0, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S457").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S457(_: &S457) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S458(i32, #[sval(flatten)] Vec<i32>, Vec<u8>);
pub fn ref_S458<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S458, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S458").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.1, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S458").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S458(_: &S458) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S459(i32, &'static str, #[sval(flatten)] Vec<i32>);
pub fn ref_S459<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S459, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S459").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.2, at)?;
    stream.tuple_end(None, Some(&sval::Label::new("S459").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S459(_: &S459) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S460(#[sval(index = 5)] i32, &'static str, Vec<u8>);
pub fn ref_S460<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S460, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S460").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(7isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(7isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S460").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S460(_: &S460) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S461(i32, #[sval(index = 5)] &'static str, Vec<u8>);
pub fn ref_S461<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S461, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S461").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S461").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S461(_: &S461) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S462(i32, &'static str, #[sval(index = 5)] Vec<u8>);
pub fn ref_S462<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S462, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S462").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S462").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S462(_: &S462) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S463(#[sval(index = -1)] i32, &'static str, Vec<u8>);
pub fn ref_S463<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S463, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S463").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S463").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S463(_: &S463) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S464(i32, #[sval(index = -1)] &'static str, Vec<u8>);
pub fn ref_S464<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S464, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S464").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S464").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S464(_: &S464) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S465(i32, &'static str, #[sval(index = -1)] Vec<u8>);
pub fn ref_S465<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S465, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S465").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S465").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S465(_: &S465) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S466(#[sval(index = AN_INDEX)] i32, &'static str, Vec<u8>);
pub fn ref_S466<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S466, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S466").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S466").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S466(_: &S466) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S467(i32, #[sval(index = AN_INDEX)] &'static str, Vec<u8>);
pub fn ref_S467<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S467, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S467").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S467").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S467(_: &S467) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S468(i32, &'static str, #[sval(index = AN_INDEX)] Vec<u8>);
pub fn ref_S468<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S468, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S468").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_end(None, Some(&sval::Label::new("S468").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S468(_: &S468) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S469(#[sval(tag = "FIELD")] i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S469<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S469, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S469").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S469").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S469(_: &S469) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S470(#[sval(tag = "FIELD")] i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S470<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S470, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S470").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S470").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S470(_: &S470) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S471(#[sval(tag = "FIELD")] i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S471<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S471, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S471").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S471").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S471(_: &S471) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S472(#[sval(tag = "FIELD")] i32, #[sval(skip)] &'static str, Vec<u8>);
pub fn ref_S472<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S472, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S472").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S472").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S472(_: &S472) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S473(#[sval(tag = "FIELD")] i32, #[sval(flatten)] Vec<i32>, Vec<u8>);
pub fn ref_S473<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S473, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S473").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.1, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S473").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S473(_: &S473) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S474(#[sval(tag = "FIELD")] i32, #[sval(index = 5)] &'static str, Vec<u8>);
pub fn ref_S474<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S474, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S474").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S474").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S474(_: &S474) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S475(#[sval(tag = "FIELD")] i32, #[sval(index = -1)] &'static str, Vec<u8>);
pub fn ref_S475<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S475, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S475").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S475").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S475(_: &S475) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S476(#[sval(tag = "FIELD")] i32, #[sval(index = AN_INDEX)] &'static str, Vec<u8>);
pub fn ref_S476<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S476, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S476").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S476").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S476(_: &S476) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S477(#[sval(data_tag = DATA)] i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S477<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S477, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S477").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S477").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S477(_: &S477) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S478(#[sval(data_tag = DATA)] i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S478<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S478, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S478").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S478").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S478(_: &S478) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S479(#[sval(data_tag = DATA)] i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S479<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S479, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S479").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S479").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S479(_: &S479) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S480(#[sval(data_tag = DATA)] i32, #[sval(skip)] &'static str, Vec<u8>);
pub fn ref_S480<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S480, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S480").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S480").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S480(_: &S480) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S481(#[sval(data_tag = DATA)] i32, #[sval(flatten)] Vec<i32>, Vec<u8>);
pub fn ref_S481<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S481, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S481").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.1, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S481").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S481(_: &S481) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S482(#[sval(data_tag = DATA)] i32, #[sval(index = 5)] &'static str, Vec<u8>);
pub fn ref_S482<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S482, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S482").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S482").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S482(_: &S482) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S483(#[sval(data_tag = DATA)] i32, #[sval(index = -1)] &'static str, Vec<u8>);
pub fn ref_S483<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S483, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S483").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S483").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S483(_: &S483) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S484(#[sval(data_tag = DATA)] i32, #[sval(index = AN_INDEX)] &'static str, Vec<u8>);
pub fn ref_S484<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S484, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S484").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S484").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S484(_: &S484) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S485(#[sval(tag = FIELD2, data_tag = DATA)] i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S485<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S485, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S485").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S485").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S485(_: &S485) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S486(#[sval(tag = FIELD2, data_tag = DATA)] i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S486<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S486, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S486").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S486").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S486(_: &S486) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S487(#[sval(tag = FIELD2, data_tag = DATA)] i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S487<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S487, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S487").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S487").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S487(_: &S487) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S488(#[sval(tag = FIELD2, data_tag = DATA)] i32, #[sval(skip)] &'static str, Vec<u8>);
pub fn ref_S488<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S488, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S488").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S488").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S488(_: &S488) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S489(#[sval(tag = FIELD2, data_tag = DATA)] i32, #[sval(flatten)] Vec<i32>, Vec<u8>);
pub fn ref_S489<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S489, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S489").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.1, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S489").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S489(_: &S489) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S490(#[sval(tag = FIELD2, data_tag = DATA)] i32, #[sval(index = 5)] &'static str, Vec<u8>);
pub fn ref_S490<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S490, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S490").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S490").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S490(_: &S490) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S491(#[sval(tag = FIELD2, data_tag = DATA)] i32, #[sval(index = -1)] &'static str, Vec<u8>);
pub fn ref_S491<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S491, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S491").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S491").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S491(_: &S491) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S492(#[sval(tag = FIELD2, data_tag = DATA)] i32, #[sval(index = AN_INDEX)] &'static str, Vec<u8>);
pub fn ref_S492<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S492, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S492").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S492").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S492(_: &S492) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S493(#[sval(skip)] i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S493<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S493, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S493").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S493").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S493(_: &S493) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S494(#[sval(skip)] i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S494<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S494, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S494").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S494").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S494(_: &S494) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S495(#[sval(skip)] i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S495<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S495, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S495").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S495").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S495(_: &S495) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S496(#[sval(skip)] i32, #[sval(skip)] &'static str, Vec<u8>);
pub fn ref_S496<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S496, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S496").with_tag(&sval::tags::VALUE_IDENT)), None, Some(1))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S496").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S496(_: &S496) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S497(#[sval(skip)] i32, #[sval(flatten)] Vec<i32>, Vec<u8>);
pub fn ref_S497<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S497, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S497").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.1, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S497").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S497(_: &S497) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S498(#[sval(skip)] i32, #[sval(label = "other name")] &'static str);
pub fn ref_S498<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S498, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S498").with_tag(&sval::tags::VALUE_IDENT)), None, Some(1))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S498").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S498(_: &S498) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S499(#[sval(skip)] i32, #[sval(label = A_LABEL)] &'static str);
pub fn ref_S499<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S499, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S499").with_tag(&sval::tags::VALUE_IDENT)), None, Some(1))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S499").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S499(_: &S499) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S500(#[sval(skip)] i32, #[sval(label = "")] &'static str);
pub fn ref_S500<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S500, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S500").with_tag(&sval::tags::VALUE_IDENT)), None, Some(1))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S500").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S500(_: &S500) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S501(#[sval(skip)] i32, #[sval(index = 5)] &'static str, Vec<u8>);
pub fn ref_S501<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S501, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S501").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S501").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S501(_: &S501) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S502(#[sval(skip)] i32, #[sval(index = -1)] &'static str, Vec<u8>);
pub fn ref_S502<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S502, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S502").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S502").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S502(_: &S502) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S503(#[sval(skip)] i32, #[sval(index = AN_INDEX)] &'static str, Vec<u8>);
pub fn ref_S503<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S503, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S503").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S503").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S503(_: &S503) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S504(#[sval(flatten)] Vec<i32>, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S504<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S504, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S504").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.0, at)?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S504").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S504(_: &S504) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S505(#[sval(flatten)] Vec<i32>, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S505<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S505, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S505").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.0, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S505").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S505(_: &S505) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S506(#[sval(flatten)] Vec<i32>, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S506<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S506, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S506").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.0, at)?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S506").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S506(_: &S506) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S507(#[sval(flatten)] Vec<i32>, #[sval(skip)] &'static str, Vec<u8>);
pub fn ref_S507<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S507, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S507").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.0, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S507").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S507(_: &S507) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S508(#[sval(flatten)] Vec<i32>, #[sval(flatten)] Vec<i32>, Vec<u8>);
pub fn ref_S508<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S508, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S508").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.0, at)?;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.1, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S508").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S508(_: &S508) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S509(#[sval(label = "other name")] i32, #[sval(skip)] &'static str);
pub fn ref_S509<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S509, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S509").with_tag(&sval::tags::VALUE_IDENT)), None, Some(1))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S509").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S509(_: &S509) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S510(#[sval(label = "other name")] i32, #[sval(label = "other name")] &'static str);
pub fn ref_S510<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S510, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S510").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S510").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S510(_: &S510) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S511(#[sval(label = "other name")] i32, #[sval(label = A_LABEL)] &'static str);
pub fn ref_S511<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S511, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S511").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S511").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S511(_: &S511) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S512(#[sval(label = "other name")] i32, #[sval(label = "")] &'static str);
pub fn ref_S512<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S512, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S512").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S512").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S512(_: &S512) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S513(#[sval(label = A_LABEL)] i32, #[sval(skip)] &'static str);
pub fn ref_S513<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S513, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S513").with_tag(&sval::tags::VALUE_IDENT)), None, Some(1))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S513").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S513(_: &S513) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S514(#[sval(label = A_LABEL)] i32, #[sval(label = "other name")] &'static str);
pub fn ref_S514<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S514, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S514").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S514").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S514(_: &S514) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S515(#[sval(label = A_LABEL)] i32, #[sval(label = A_LABEL)] &'static str);
pub fn ref_S515<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S515, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S515").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S515").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S515(_: &S515) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S516(#[sval(label = A_LABEL)] i32, #[sval(label = "")] &'static str);
pub fn ref_S516<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S516, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S516").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S516").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S516(_: &S516) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S517(#[sval(label = "")] i32, #[sval(skip)] &'static str);
pub fn ref_S517<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S517, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S517").with_tag(&sval::tags::VALUE_IDENT)), None, Some(1))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S517").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S517(_: &S517) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S518(#[sval(label = "")] i32, #[sval(label = "other name")] &'static str);
pub fn ref_S518<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S518, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S518").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S518").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S518(_: &S518) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S519(#[sval(label = "")] i32, #[sval(label = A_LABEL)] &'static str);
pub fn ref_S519<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S519, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S519").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S519").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S519(_: &S519) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S520(#[sval(label = "")] i32, #[sval(label = "")] &'static str);
pub fn ref_S520<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S520, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S520").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S520").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S520(_: &S520) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S521(#[sval(index = 5)] i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S521<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S521, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S521").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(6isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(6isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(7isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(7isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S521").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S521(_: &S521) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S522(#[sval(index = 5)] i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S522<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S522, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S522").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(7isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(7isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S522").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S522(_: &S522) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S523(#[sval(index = 5)] i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S523<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S523, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S523").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(6isize))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(6isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(7isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(7isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S523").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S523(_: &S523) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S524(#[sval(index = 5)] i32, #[sval(skip)] &'static str, Vec<u8>);
pub fn ref_S524<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S524, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S524").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S524").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S524(_: &S524) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S525(#[sval(index = 5)] i32, #[sval(index = 5)] &'static str, Vec<u8>);
pub fn ref_S525<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S525, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S525").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S525").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S525(_: &S525) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S526(#[sval(index = 5)] i32, #[sval(index = -1)] &'static str, Vec<u8>);
pub fn ref_S526<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S526, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S526").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S526").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S526(_: &S526) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S527(#[sval(index = 5)] i32, #[sval(index = AN_INDEX)] &'static str, Vec<u8>);
pub fn ref_S527<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S527, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S527").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(7isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(7isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S527").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S527(_: &S527) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S528(#[sval(index = -1)] i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S528<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S528, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S528").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S528").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S528(_: &S528) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S529(#[sval(index = -1)] i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S529<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S529, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S529").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S529").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S529(_: &S529) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S530(#[sval(index = -1)] i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S530<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S530, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S530").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S530").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S530(_: &S530) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S531(#[sval(index = -1)] i32, #[sval(skip)] &'static str, Vec<u8>);
pub fn ref_S531<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S531, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S531").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S531").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S531(_: &S531) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S532(#[sval(index = -1)] i32, #[sval(index = 5)] &'static str, Vec<u8>);
pub fn ref_S532<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S532, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S532").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S532").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S532(_: &S532) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S533(#[sval(index = -1)] i32, #[sval(index = -1)] &'static str, Vec<u8>);
pub fn ref_S533<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S533, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S533").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S533").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S533(_: &S533) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S534(#[sval(index = -1)] i32, #[sval(index = AN_INDEX)] &'static str, Vec<u8>);
pub fn ref_S534<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S534, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S534").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S534").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S534(_: &S534) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S535(#[sval(index = AN_INDEX)] i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S535<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S535, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S535").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(1isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S535").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S535(_: &S535) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S536(#[sval(index = AN_INDEX)] i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S536<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S536, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S536").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S536").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S536(_: &S536) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S537(#[sval(index = AN_INDEX)] i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S537<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S537, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S537").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(1isize))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S537").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S537(_: &S537) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S538(#[sval(index = AN_INDEX)] i32, #[sval(skip)] &'static str, Vec<u8>);
pub fn ref_S538<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S538, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S538").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S538").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S538(_: &S538) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S539(#[sval(index = AN_INDEX)] i32, #[sval(index = 5)] &'static str, Vec<u8>);
pub fn ref_S539<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S539, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S539").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S539").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S539(_: &S539) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S540(#[sval(index = AN_INDEX)] i32, #[sval(index = -1)] &'static str, Vec<u8>);
pub fn ref_S540<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S540, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S540").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S540").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S540(_: &S540) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S541(#[sval(index = AN_INDEX)] i32, #[sval(index = AN_INDEX)] &'static str, Vec<u8>);
pub fn ref_S541<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S541, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S541").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S541").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S541(_: &S541) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S542(i32, &'static str, Vec<u8>);
pub fn ref_S542<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S542, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S542").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S542").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S542(_: &S542) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S543(#[sval(tag = "FIELD")] i32, &'static str, Vec<u8>);
pub fn ref_S543<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S543, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S543").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S543").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S543(_: &S543) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S544(i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S544<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S544, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S544").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S544").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S544(_: &S544) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S545(i32, &'static str, #[sval(tag = "FIELD")] Vec<u8>);
pub fn ref_S545<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S545, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S545").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S545").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S545(_: &S545) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S546(#[sval(data_tag = DATA)] i32, &'static str, Vec<u8>);
pub fn ref_S546<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S546, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S546").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S546").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S546(_: &S546) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S547(i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S547<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S547, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S547").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S547").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S547(_: &S547) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S548(i32, &'static str, #[sval(data_tag = DATA)] Vec<u8>);
pub fn ref_S548<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S548, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S548").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.2)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S548").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S548(_: &S548) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S549(#[sval(tag = FIELD2, data_tag = DATA)] i32, &'static str, Vec<u8>);
pub fn ref_S549<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S549, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S549").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S549").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S549(_: &S549) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S550(i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S550<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S550, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S550").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S550").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S550(_: &S550) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S551(i32, &'static str, #[sval(tag = FIELD2, data_tag = DATA)] Vec<u8>);
pub fn ref_S551<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S551, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S551").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.2)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S551").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S551(_: &S551) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S552(#[sval(skip)] i32, &'static str, Vec<u8>);
pub fn ref_S552<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S552, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S552").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S552").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S552(_: &S552) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S553(i32, #[sval(skip)] &'static str, Vec<u8>);
pub fn ref_S553<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S553, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S553").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S553").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S553(_: &S553) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S554(i32, &'static str, #[sval(skip)] Vec<u8>);
pub fn ref_S554<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S554, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S554").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S554").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S554(_: &S554) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S555(#[sval(flatten)] Vec<i32>, &'static str, Vec<u8>);
pub fn ref_S555<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S555, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S555").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.0, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S555").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S555(_: &S555) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S556(i32, #[sval(flatten)] Vec<i32>, Vec<u8>);
pub fn ref_S556<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S556, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S556").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.1, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S556").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S556(_: &S556) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S557(i32, &'static str, #[sval(flatten)] Vec<i32>);
pub fn ref_S557<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S557, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S557").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.2, at)?;
    stream.tuple_end(None, Some(&sval::Label::new("S557").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S557(_: &S557) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S558(#[sval(index = 5)] i32, &'static str, Vec<u8>);
pub fn ref_S558<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S558, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S558").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(7isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(7isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S558").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S558(_: &S558) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S559(i32, #[sval(index = 5)] &'static str, Vec<u8>);
pub fn ref_S559<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S559, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S559").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S559").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S559(_: &S559) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S560(i32, &'static str, #[sval(index = 5)] Vec<u8>);
pub fn ref_S560<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S560, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S560").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S560").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S560(_: &S560) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S561(#[sval(index = -1)] i32, &'static str, Vec<u8>);
pub fn ref_S561<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S561, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S561").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S561").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S561(_: &S561) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S562(i32, #[sval(index = -1)] &'static str, Vec<u8>);
pub fn ref_S562<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S562, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S562").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S562").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S562(_: &S562) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S563(i32, &'static str, #[sval(index = -1)] Vec<u8>);
pub fn ref_S563<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S563, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S563").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S563").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S563(_: &S563) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S564(#[sval(index = AN_INDEX)] i32, &'static str, Vec<u8>);
pub fn ref_S564<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S564, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S564").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S564").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S564(_: &S564) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S565(i32, #[sval(index = AN_INDEX)] &'static str, Vec<u8>);
pub fn ref_S565<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S565, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S565").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S565").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S565(_: &S565) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S566(i32, &'static str, #[sval(index = AN_INDEX)] Vec<u8>);
pub fn ref_S566<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S566, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S566").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_end(None, Some(&sval::Label::new("S566").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S566(_: &S566) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S567(#[sval(tag = "FIELD")] i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S567<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S567, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S567").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S567").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S567(_: &S567) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S568(#[sval(tag = "FIELD")] i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S568<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S568, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S568").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S568").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S568(_: &S568) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S569(#[sval(tag = "FIELD")] i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S569<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S569, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S569").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S569").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S569(_: &S569) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S570(#[sval(tag = "FIELD")] i32, #[sval(skip)] &'static str, Vec<u8>);
pub fn ref_S570<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S570, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S570").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S570").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S570(_: &S570) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S571(#[sval(tag = "FIELD")] i32, #[sval(flatten)] Vec<i32>, Vec<u8>);
pub fn ref_S571<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S571, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S571").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.1, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S571").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S571(_: &S571) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S572(#[sval(tag = "FIELD")] i32, #[sval(index = 5)] &'static str, Vec<u8>);
pub fn ref_S572<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S572, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S572").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S572").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S572(_: &S572) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S573(#[sval(tag = "FIELD")] i32, #[sval(index = -1)] &'static str, Vec<u8>);
pub fn ref_S573<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S573, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S573").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S573").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S573(_: &S573) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S574(#[sval(tag = "FIELD")] i32, #[sval(index = AN_INDEX)] &'static str, Vec<u8>);
pub fn ref_S574<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S574, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S574").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S574").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S574(_: &S574) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S575(#[sval(data_tag = DATA)] i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S575<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S575, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S575").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S575").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S575(_: &S575) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S576(#[sval(data_tag = DATA)] i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S576<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S576, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S576").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S576").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S576(_: &S576) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S577(#[sval(data_tag = DATA)] i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S577<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S577, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S577").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S577").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S577(_: &S577) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S578(#[sval(data_tag = DATA)] i32, #[sval(skip)] &'static str, Vec<u8>);
pub fn ref_S578<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S578, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S578").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S578").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S578(_: &S578) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S579(#[sval(data_tag = DATA)] i32, #[sval(flatten)] Vec<i32>, Vec<u8>);
pub fn ref_S579<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S579, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S579").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.1, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S579").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S579(_: &S579) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S580(#[sval(data_tag = DATA)] i32, #[sval(index = 5)] &'static str, Vec<u8>);
pub fn ref_S580<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S580, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S580").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S580").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S580(_: &S580) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S581(#[sval(data_tag = DATA)] i32, #[sval(index = -1)] &'static str, Vec<u8>);
pub fn ref_S581<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S581, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S581").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S581").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S581(_: &S581) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S582(#[sval(data_tag = DATA)] i32, #[sval(index = AN_INDEX)] &'static str, Vec<u8>);
pub fn ref_S582<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S582, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S582").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S582").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S582(_: &S582) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S583(#[sval(tag = FIELD2, data_tag = DATA)] i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S583<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S583, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S583").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S583").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S583(_: &S583) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S584(#[sval(tag = FIELD2, data_tag = DATA)] i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S584<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S584, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S584").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S584").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S584(_: &S584) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S585(#[sval(tag = FIELD2, data_tag = DATA)] i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S585<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S585, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S585").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S585").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S585(_: &S585) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S586(#[sval(tag = FIELD2, data_tag = DATA)] i32, #[sval(skip)] &'static str, Vec<u8>);
pub fn ref_S586<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S586, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S586").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S586").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S586(_: &S586) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S587(#[sval(tag = FIELD2, data_tag = DATA)] i32, #[sval(flatten)] Vec<i32>, Vec<u8>);
pub fn ref_S587<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S587, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S587").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.1, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S587").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S587(_: &S587) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S588(#[sval(tag = FIELD2, data_tag = DATA)] i32, #[sval(index = 5)] &'static str, Vec<u8>);
pub fn ref_S588<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S588, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S588").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S588").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S588(_: &S588) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S589(#[sval(tag = FIELD2, data_tag = DATA)] i32, #[sval(index = -1)] &'static str, Vec<u8>);
pub fn ref_S589<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S589, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S589").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S589").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S589(_: &S589) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S590(#[sval(tag = FIELD2, data_tag = DATA)] i32, #[sval(index = AN_INDEX)] &'static str, Vec<u8>);
pub fn ref_S590<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S590, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S590").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S590").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S590(_: &S590) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S591(#[sval(skip)] i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S591<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S591, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S591").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S591").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S591(_: &S591) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S592(#[sval(skip)] i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S592<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S592, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S592").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S592").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S592(_: &S592) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S593(#[sval(skip)] i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S593<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S593, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S593").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S593").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S593(_: &S593) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S594(#[sval(skip)] i32, #[sval(flatten)] Vec<i32>, Vec<u8>);
pub fn ref_S594<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S594, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S594").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.1, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S594").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S594(_: &S594) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S595(#[sval(skip)] i32, #[sval(index = 5)] &'static str, Vec<u8>);
pub fn ref_S595<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S595, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S595").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S595").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S595(_: &S595) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S596(#[sval(skip)] i32, #[sval(index = -1)] &'static str, Vec<u8>);
pub fn ref_S596<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S596, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S596").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S596").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S596(_: &S596) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S597(#[sval(skip)] i32, #[sval(index = AN_INDEX)] &'static str, Vec<u8>);
pub fn ref_S597<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S597, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S597").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S597").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S597(_: &S597) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S598(#[sval(flatten)] Vec<i32>, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S598<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S598, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S598").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.0, at)?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S598").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S598(_: &S598) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S599(#[sval(flatten)] Vec<i32>, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S599<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S599, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S599").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.0, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S599").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S599(_: &S599) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S600(#[sval(flatten)] Vec<i32>, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S600<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S600, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S600").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.0, at)?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S600").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S600(_: &S600) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S601(#[sval(flatten)] Vec<i32>, #[sval(skip)] &'static str, Vec<u8>);
pub fn ref_S601<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S601, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S601").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.0, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S601").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S601(_: &S601) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S602(#[sval(flatten)] Vec<i32>, #[sval(flatten)] Vec<i32>, Vec<u8>);
pub fn ref_S602<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S602, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S602").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.0, at)?;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.1, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S602").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S602(_: &S602) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S603(#[sval(index = 5)] i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S603<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S603, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S603").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(6isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(6isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(7isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(7isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S603").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S603(_: &S603) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S604(#[sval(index = 5)] i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S604<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S604, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S604").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(7isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(7isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S604").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S604(_: &S604) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S605(#[sval(index = 5)] i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S605<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S605, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S605").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(6isize))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(6isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(7isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(7isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S605").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S605(_: &S605) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S606(#[sval(index = 5)] i32, #[sval(skip)] &'static str, Vec<u8>);
pub fn ref_S606<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S606, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S606").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S606").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S606(_: &S606) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S607(#[sval(index = 5)] i32, #[sval(index = 5)] &'static str, Vec<u8>);
pub fn ref_S607<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S607, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S607").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S607").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S607(_: &S607) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S608(#[sval(index = 5)] i32, #[sval(index = -1)] &'static str, Vec<u8>);
pub fn ref_S608<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S608, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S608").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S608").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S608(_: &S608) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S609(#[sval(index = 5)] i32, #[sval(index = AN_INDEX)] &'static str, Vec<u8>);
pub fn ref_S609<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S609, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S609").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(7isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(7isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S609").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S609(_: &S609) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S610(#[sval(index = -1)] i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S610<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S610, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S610").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S610").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S610(_: &S610) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S611(#[sval(index = -1)] i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S611<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S611, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S611").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S611").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S611(_: &S611) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S612(#[sval(index = -1)] i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S612<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S612, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S612").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S612").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S612(_: &S612) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S613(#[sval(index = -1)] i32, #[sval(skip)] &'static str, Vec<u8>);
pub fn ref_S613<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S613, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S613").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S613").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S613(_: &S613) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S614(#[sval(index = -1)] i32, #[sval(index = 5)] &'static str, Vec<u8>);
pub fn ref_S614<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S614, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S614").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S614").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S614(_: &S614) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S615(#[sval(index = -1)] i32, #[sval(index = -1)] &'static str, Vec<u8>);
pub fn ref_S615<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S615, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S615").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S615").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S615(_: &S615) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S616(#[sval(index = -1)] i32, #[sval(index = AN_INDEX)] &'static str, Vec<u8>);
pub fn ref_S616<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S616, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S616").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S616").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S616(_: &S616) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S617(#[sval(index = AN_INDEX)] i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S617<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S617, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S617").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(1isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S617").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S617(_: &S617) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S618(#[sval(index = AN_INDEX)] i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S618<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S618, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S618").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S618").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S618(_: &S618) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S619(#[sval(index = AN_INDEX)] i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S619<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S619, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S619").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(1isize))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S619").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S619(_: &S619) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S620(#[sval(index = AN_INDEX)] i32, #[sval(skip)] &'static str, Vec<u8>);
pub fn ref_S620<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S620, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S620").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S620").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S620(_: &S620) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S621(#[sval(index = AN_INDEX)] i32, #[sval(index = 5)] &'static str, Vec<u8>);
pub fn ref_S621<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S621, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S621").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(5isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(5isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(6isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(6isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S621").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S621(_: &S621) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S622(#[sval(index = AN_INDEX)] i32, #[sval(index = -1)] &'static str, Vec<u8>);
pub fn ref_S622<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S622, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S622").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(-1isize))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(-1isize))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S622").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S622(_: &S622) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S623(#[sval(index = AN_INDEX)] i32, #[sval(index = AN_INDEX)] &'static str, Vec<u8>);
pub fn ref_S623<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S623, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S623").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?;
    stream.tuple_value_begin(None, &sval::Index::from(2isize))?;
    stream.value(&this.2)?;
    stream.tuple_value_end(None, &sval::Index::from(2isize))?;
    stream.tuple_end(None, Some(&sval::Label::new("S623").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S623(_: &S623) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S624(i32, &'static str, Vec<u8>);
pub fn ref_S624<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S624, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S624").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S624").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S624(_: &S624) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S625(#[sval(tag = "FIELD")] i32, &'static str, Vec<u8>);
pub fn ref_S625<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S625, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S625").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S625").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S625(_: &S625) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S626(i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S626<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S626, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S626").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S626").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S626(_: &S626) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S627(i32, &'static str, #[sval(tag = "FIELD")] Vec<u8>);
pub fn ref_S627<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S627, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S627").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S627").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S627(_: &S627) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S628(#[sval(data_tag = DATA)] i32, &'static str, Vec<u8>);
pub fn ref_S628<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S628, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S628").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S628").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S628(_: &S628) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S629(i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S629<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S629, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S629").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S629").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S629(_: &S629) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S630(i32, &'static str, #[sval(data_tag = DATA)] Vec<u8>);
pub fn ref_S630<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S630, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S630").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.2)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S630").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S630(_: &S630) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S631(#[sval(tag = FIELD2, data_tag = DATA)] i32, &'static str, Vec<u8>);
pub fn ref_S631<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S631, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S631").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S631").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S631(_: &S631) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S632(i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S632<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S632, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S632").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S632").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S632(_: &S632) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S633(i32, &'static str, #[sval(tag = FIELD2, data_tag = DATA)] Vec<u8>);
pub fn ref_S633<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S633, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S633").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.2)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S633").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S633(_: &S633) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S634(#[sval(skip)] i32, &'static str, Vec<u8>);
pub fn ref_S634<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S634, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S634").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S634").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S634(_: &S634) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S635(i32, #[sval(skip)] &'static str, Vec<u8>);
pub fn ref_S635<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S635, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S635").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S635").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S635(_: &S635) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S636(i32, &'static str, #[sval(skip)] Vec<u8>);
pub fn ref_S636<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S636, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S636").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S636").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S636(_: &S636) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S637(#[sval(flatten)] Vec<i32>, &'static str, Vec<u8>);
pub fn ref_S637<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S637, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S637").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.0)?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S637").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S637(_: &S637) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S638(i32, #[sval(flatten)] Vec<i32>, Vec<u8>);
pub fn ref_S638<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S638, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S638").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.1)?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S638").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S638(_: &S638) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S639(i32, &'static str, #[sval(flatten)] Vec<i32>);
pub fn ref_S639<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S639, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S639").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.2)?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S639").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S639(_: &S639) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S640(#[sval(tag = "FIELD")] i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S640<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S640, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S640").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S640").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S640(_: &S640) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S641(#[sval(tag = "FIELD")] i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S641<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S641, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S641").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S641").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S641(_: &S641) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S642(#[sval(tag = "FIELD")] i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S642<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S642, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S642").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S642").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S642(_: &S642) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S643(#[sval(tag = "FIELD")] i32, #[sval(skip)] &'static str, Vec<u8>);
pub fn ref_S643<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S643, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S643").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S643").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S643(_: &S643) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S644(#[sval(tag = "FIELD")] i32, #[sval(flatten)] Vec<i32>, Vec<u8>);
pub fn ref_S644<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S644, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S644").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.1)?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S644").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S644(_: &S644) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S645(#[sval(data_tag = DATA)] i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S645<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S645, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S645").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S645").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S645(_: &S645) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S646(#[sval(data_tag = DATA)] i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S646<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S646, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S646").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S646").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S646(_: &S646) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S647(#[sval(data_tag = DATA)] i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S647<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S647, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S647").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S647").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S647(_: &S647) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S648(#[sval(data_tag = DATA)] i32, #[sval(skip)] &'static str, Vec<u8>);
pub fn ref_S648<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S648, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S648").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S648").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S648(_: &S648) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S649(#[sval(data_tag = DATA)] i32, #[sval(flatten)] Vec<i32>, Vec<u8>);
pub fn ref_S649<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S649, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S649").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.1)?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S649").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S649(_: &S649) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S650(#[sval(tag = FIELD2, data_tag = DATA)] i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S650<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S650, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S650").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S650").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S650(_: &S650) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S651(#[sval(tag = FIELD2, data_tag = DATA)] i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S651<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S651, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S651").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S651").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S651(_: &S651) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S652(#[sval(tag = FIELD2, data_tag = DATA)] i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S652<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S652, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S652").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S652").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S652(_: &S652) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S653(#[sval(tag = FIELD2, data_tag = DATA)] i32, #[sval(skip)] &'static str, Vec<u8>);
pub fn ref_S653<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S653, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S653").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S653").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S653(_: &S653) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S654(#[sval(tag = FIELD2, data_tag = DATA)] i32, #[sval(flatten)] Vec<i32>, Vec<u8>);
pub fn ref_S654<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S654, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S654").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.1)?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S654").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S654(_: &S654) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S655(#[sval(skip)] i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S655<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S655, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S655").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S655").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S655(_: &S655) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S656(#[sval(skip)] i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S656<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S656, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S656").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S656").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S656(_: &S656) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S657(#[sval(skip)] i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S657<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S657, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S657").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S657").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S657(_: &S657) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S658(#[sval(skip)] i32, #[sval(flatten)] Vec<i32>, Vec<u8>);
pub fn ref_S658<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S658, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S658").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.1)?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S658").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S658(_: &S658) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S659(#[sval(skip)] i32, #[sval(label = "other name")] &'static str);
pub fn ref_S659<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S659, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S659").with_tag(&sval::tags::VALUE_IDENT)), None, Some(1))?;
    stream.record_value_begin(None, &sval::Label::new("other name"))?;
    stream.value(&this.1)?;
    stream.record_value_end(None, &sval::Label::new("other name"))?;
    stream.record_end(None, Some(&sval::Label::new("S659").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S659(_: &S659) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S660(#[sval(skip)] i32, #[sval(label = A_LABEL)] &'static str);
pub fn ref_S660<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S660, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S660").with_tag(&sval::tags::VALUE_IDENT)), None, Some(1))?;
    stream.record_value_begin(None, &A_LABEL)?;
    stream.value(&this.1)?;
    stream.record_value_end(None, &A_LABEL)?;
    stream.record_end(None, Some(&sval::Label::new("S660").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S660(_: &S660) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S661(#[sval(skip)] i32, #[sval(label = "")] &'static str);
pub fn ref_S661<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S661, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S661").with_tag(&sval::tags::VALUE_IDENT)), None, Some(1))?;
    stream.record_value_begin(None, &sval::Label::new(""))?;
    stream.value(&this.1)?;
    stream.record_value_end(None, &sval::Label::new(""))?;
    stream.record_end(None, Some(&sval::Label::new("S661").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S661(_: &S661) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S662(#[sval(flatten)] Vec<i32>, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S662<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S662, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S662").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.0)?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S662").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S662(_: &S662) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S663(#[sval(flatten)] Vec<i32>, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S663<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S663, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S663").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.0)?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S663").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S663(_: &S663) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S664(#[sval(flatten)] Vec<i32>, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S664<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S664, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S664").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.0)?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S664").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S664(_: &S664) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S665(#[sval(flatten)] Vec<i32>, #[sval(skip)] &'static str, Vec<u8>);
pub fn ref_S665<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S665, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S665").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.0)?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S665").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S665(_: &S665) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S666(#[sval(flatten)] Vec<i32>, #[sval(flatten)] Vec<i32>, Vec<u8>);
pub fn ref_S666<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S666, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S666").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.0)?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.1)?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S666").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S666(_: &S666) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S667(#[sval(label = "other name")] i32, #[sval(skip)] &'static str);
pub fn ref_S667<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S667, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S667").with_tag(&sval::tags::VALUE_IDENT)), None, Some(1))?;
    stream.record_value_begin(None, &sval::Label::new("other name"))?;
    stream.value(&this.0)?;
    stream.record_value_end(None, &sval::Label::new("other name"))?;
    stream.record_end(None, Some(&sval::Label::new("S667").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S667(_: &S667) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S668(#[sval(label = "other name")] i32, #[sval(label = "other name")] &'static str);
pub fn ref_S668<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S668, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S668").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_value_begin(None, &sval::Label::new("other name"))?;
    stream.value(&this.0)?;
    stream.record_value_end(None, &sval::Label::new("other name"))?;
    stream.record_value_begin(None, &sval::Label::new("other name"))?;
    stream.value(&this.1)?;
    stream.record_value_end(None, &sval::Label::new("other name"))?;
    stream.record_end(None, Some(&sval::Label::new("S668").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S668(_: &S668) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S669(#[sval(label = "other name")] i32, #[sval(label = A_LABEL)] &'static str);
pub fn ref_S669<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S669, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S669").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_value_begin(None, &sval::Label::new("other name"))?;
    stream.value(&this.0)?;
    stream.record_value_end(None, &sval::Label::new("other name"))?;
    stream.record_value_begin(None, &A_LABEL)?;
    stream.value(&this.1)?;
    stream.record_value_end(None, &A_LABEL)?;
    stream.record_end(None, Some(&sval::Label::new("S669").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S669(_: &S669) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S670(#[sval(label = "other name")] i32, #[sval(label = "")] &'static str);
pub fn ref_S670<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S670, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S670").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_value_begin(None, &sval::Label::new("other name"))?;
    stream.value(&this.0)?;
    stream.record_value_end(None, &sval::Label::new("other name"))?;
    stream.record_value_begin(None, &sval::Label::new(""))?;
    stream.value(&this.1)?;
    stream.record_value_end(None, &sval::Label::new(""))?;
    stream.record_end(None, Some(&sval::Label::new("S670").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S670(_: &S670) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S671(#[sval(label = A_LABEL)] i32, #[sval(skip)] &'static str);
pub fn ref_S671<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S671, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S671").with_tag(&sval::tags::VALUE_IDENT)), None, Some(1))?;
    stream.record_value_begin(None, &A_LABEL)?;
    stream.value(&this.0)?;
    stream.record_value_end(None, &A_LABEL)?;
    stream.record_end(None, Some(&sval::Label::new("S671").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S671(_: &S671) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S672(#[sval(label = A_LABEL)] i32, #[sval(label = "other name")] &'static str);
pub fn ref_S672<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S672, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S672").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_value_begin(None, &A_LABEL)?;
    stream.value(&this.0)?;
    stream.record_value_end(None, &A_LABEL)?;
    stream.record_value_begin(None, &sval::Label::new("other name"))?;
    stream.value(&this.1)?;
    stream.record_value_end(None, &sval::Label::new("other name"))?;
    stream.record_end(None, Some(&sval::Label::new("S672").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S672(_: &S672) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S673(#[sval(label = A_LABEL)] i32, #[sval(label = A_LABEL)] &'static str);
pub fn ref_S673<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S673, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S673").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_value_begin(None, &A_LABEL)?;
    stream.value(&this.0)?;
    stream.record_value_end(None, &A_LABEL)?;
    stream.record_value_begin(None, &A_LABEL)?;
    stream.value(&this.1)?;
    stream.record_value_end(None, &A_LABEL)?;
    stream.record_end(None, Some(&sval::Label::new("S673").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S673(_: &S673) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S674(#[sval(label = A_LABEL)] i32, #[sval(label = "")] &'static str);
pub fn ref_S674<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S674, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S674").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_value_begin(None, &A_LABEL)?;
    stream.value(&this.0)?;
    stream.record_value_end(None, &A_LABEL)?;
    stream.record_value_begin(None, &sval::Label::new(""))?;
    stream.value(&this.1)?;
    stream.record_value_end(None, &sval::Label::new(""))?;
    stream.record_end(None, Some(&sval::Label::new("S674").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S674(_: &S674) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S675(#[sval(label = "")] i32, #[sval(skip)] &'static str);
pub fn ref_S675<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S675, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S675").with_tag(&sval::tags::VALUE_IDENT)), None, Some(1))?;
    stream.record_value_begin(None, &sval::Label::new(""))?;
    stream.value(&this.0)?;
    stream.record_value_end(None, &sval::Label::new(""))?;
    stream.record_end(None, Some(&sval::Label::new("S675").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S675(_: &S675) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S676(#[sval(label = "")] i32, #[sval(label = "other name")] &'static str);
pub fn ref_S676<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S676, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S676").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_value_begin(None, &sval::Label::new(""))?;
    stream.value(&this.0)?;
    stream.record_value_end(None, &sval::Label::new(""))?;
    stream.record_value_begin(None, &sval::Label::new("other name"))?;
    stream.value(&this.1)?;
    stream.record_value_end(None, &sval::Label::new("other name"))?;
    stream.record_end(None, Some(&sval::Label::new("S676").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S676(_: &S676) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S677(#[sval(label = "")] i32, #[sval(label = A_LABEL)] &'static str);
pub fn ref_S677<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S677, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S677").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_value_begin(None, &sval::Label::new(""))?;
    stream.value(&this.0)?;
    stream.record_value_end(None, &sval::Label::new(""))?;
    stream.record_value_begin(None, &A_LABEL)?;
    stream.value(&this.1)?;
    stream.record_value_end(None, &A_LABEL)?;
    stream.record_end(None, Some(&sval::Label::new("S677").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S677(_: &S677) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S678(#[sval(label = "")] i32, #[sval(label = "")] &'static str);
pub fn ref_S678<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S678, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S678").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_value_begin(None, &sval::Label::new(""))?;
    stream.value(&this.0)?;
    stream.record_value_end(None, &sval::Label::new(""))?;
    stream.record_value_begin(None, &sval::Label::new(""))?;
    stream.value(&this.1)?;
    stream.record_value_end(None, &sval::Label::new(""))?;
    stream.record_end(None, Some(&sval::Label::new("S678").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S678(_: &S678) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S679(i32, &'static str, Vec<u8>);
pub fn ref_S679<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S679, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S679").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S679").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S679(_: &S679) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S680(#[sval(tag = "FIELD")] i32, &'static str, Vec<u8>);
pub fn ref_S680<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S680, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S680").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S680").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S680(_: &S680) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S681(i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S681<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S681, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S681").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S681").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S681(_: &S681) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S682(i32, &'static str, #[sval(tag = "FIELD")] Vec<u8>);
pub fn ref_S682<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S682, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S682").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S682").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S682(_: &S682) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S683(#[sval(data_tag = DATA)] i32, &'static str, Vec<u8>);
pub fn ref_S683<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S683, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S683").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S683").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S683(_: &S683) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S684(i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S684<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S684, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S684").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S684").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S684(_: &S684) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S685(i32, &'static str, #[sval(data_tag = DATA)] Vec<u8>);
pub fn ref_S685<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S685, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S685").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.2)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S685").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S685(_: &S685) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S686(#[sval(tag = FIELD2, data_tag = DATA)] i32, &'static str, Vec<u8>);
pub fn ref_S686<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S686, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S686").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S686").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S686(_: &S686) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S687(i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S687<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S687, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S687").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S687").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S687(_: &S687) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S688(i32, &'static str, #[sval(tag = FIELD2, data_tag = DATA)] Vec<u8>);
pub fn ref_S688<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S688, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S688").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.2)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S688").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S688(_: &S688) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S689(#[sval(skip)] i32, &'static str, Vec<u8>);
pub fn ref_S689<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S689, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S689").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S689").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S689(_: &S689) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S690(i32, #[sval(skip)] &'static str, Vec<u8>);
pub fn ref_S690<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S690, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S690").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S690").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S690(_: &S690) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S691(i32, &'static str, #[sval(skip)] Vec<u8>);
pub fn ref_S691<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S691, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S691").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S691").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S691(_: &S691) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S692(#[sval(flatten)] Vec<i32>, &'static str, Vec<u8>);
pub fn ref_S692<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S692, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S692").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.0)?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S692").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S692(_: &S692) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S693(i32, #[sval(flatten)] Vec<i32>, Vec<u8>);
pub fn ref_S693<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S693, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S693").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.1)?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S693").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S693(_: &S693) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S694(i32, &'static str, #[sval(flatten)] Vec<i32>);
pub fn ref_S694<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S694, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S694").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.2)?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S694").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S694(_: &S694) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S695(#[sval(tag = "FIELD")] i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S695<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S695, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S695").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S695").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S695(_: &S695) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S696(#[sval(tag = "FIELD")] i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S696<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S696, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S696").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S696").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S696(_: &S696) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S697(#[sval(tag = "FIELD")] i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S697<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S697, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S697").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S697").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S697(_: &S697) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S698(#[sval(tag = "FIELD")] i32, #[sval(skip)] &'static str, Vec<u8>);
pub fn ref_S698<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S698, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S698").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S698").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S698(_: &S698) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S699(#[sval(tag = "FIELD")] i32, #[sval(flatten)] Vec<i32>, Vec<u8>);
pub fn ref_S699<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S699, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S699").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.1)?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S699").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S699(_: &S699) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S700(#[sval(data_tag = DATA)] i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S700<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S700, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S700").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S700").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S700(_: &S700) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S701(#[sval(data_tag = DATA)] i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S701<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S701, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S701").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S701").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S701(_: &S701) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S702(#[sval(data_tag = DATA)] i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S702<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S702, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S702").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S702").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S702(_: &S702) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S703(#[sval(data_tag = DATA)] i32, #[sval(skip)] &'static str, Vec<u8>);
pub fn ref_S703<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S703, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S703").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S703").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S703(_: &S703) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S704(#[sval(data_tag = DATA)] i32, #[sval(flatten)] Vec<i32>, Vec<u8>);
pub fn ref_S704<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S704, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S704").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.1)?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S704").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S704(_: &S704) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S705(#[sval(tag = FIELD2, data_tag = DATA)] i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S705<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S705, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S705").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S705").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S705(_: &S705) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S706(#[sval(tag = FIELD2, data_tag = DATA)] i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S706<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S706, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S706").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S706").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S706(_: &S706) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S707(#[sval(tag = FIELD2, data_tag = DATA)] i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S707<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S707, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S707").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(3))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S707").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S707(_: &S707) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S708(#[sval(tag = FIELD2, data_tag = DATA)] i32, #[sval(skip)] &'static str, Vec<u8>);
pub fn ref_S708<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S708, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S708").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S708").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S708(_: &S708) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S709(#[sval(tag = FIELD2, data_tag = DATA)] i32, #[sval(flatten)] Vec<i32>, Vec<u8>);
pub fn ref_S709<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S709, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S709").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.0)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.1)?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S709").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S709(_: &S709) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S710(#[sval(skip)] i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S710<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S710, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S710").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S710").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S710(_: &S710) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S711(#[sval(skip)] i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S711<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S711, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S711").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S711").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S711(_: &S711) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S712(#[sval(skip)] i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S712<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S712, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S712").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(Some(2))?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S712").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S712(_: &S712) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S713(#[sval(skip)] i32, #[sval(flatten)] Vec<i32>, Vec<u8>);
pub fn ref_S713<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S713, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S713").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.1)?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S713").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S713(_: &S713) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S714(#[sval(flatten)] Vec<i32>, #[sval(tag = "FIELD")] &'static str, Vec<u8>);
pub fn ref_S714<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S714, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S714").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.0)?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S714").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S714(_: &S714) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S715(#[sval(flatten)] Vec<i32>, #[sval(data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S715<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S715, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S715").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.0)?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S715").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S715(_: &S715) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S716(#[sval(flatten)] Vec<i32>, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>);
pub fn ref_S716<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S716, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S716").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.0)?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.1)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S716").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S716(_: &S716) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S717(#[sval(flatten)] Vec<i32>, #[sval(skip)] &'static str, Vec<u8>);
pub fn ref_S717<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S717, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S717").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.0)?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S717").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S717(_: &S717) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S718(#[sval(flatten)] Vec<i32>, #[sval(flatten)] Vec<i32>, Vec<u8>);
pub fn ref_S718<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S718, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S718").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.0)?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.1)?;
    stream.seq_value_begin()?;
    stream.value(&this.2)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S718").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S718(_: &S718) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S719(#[sval(label = "a")] i32, #[sval(label = "b")] bool);
pub fn ref_S719<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S719, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S719").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("a"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.record_tuple_value_end(None, &sval::Label::new("a"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("b"), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.record_tuple_value_end(None, &sval::Label::new("b"), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S719").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S719(_: &S719) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S720(#[sval(label = "a")] i32, #[sval(label = "b", index = 9)] bool, #[sval(label = A_LABEL)] bool);
pub fn ref_S720<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S720, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S720").with_tag(&sval::tags::VALUE_IDENT)), None, Some(3))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("a"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.record_tuple_value_end(None, &sval::Label::new("a"), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("b"), &sval::Index::from(9isize))?;
    stream.value(&this.1)?;
    stream.record_tuple_value_end(None, &sval::Label::new("b"), &sval::Index::from(9isize))?;
    stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(10isize))?;
    stream.value(&this.2)?;
    stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(10isize))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S720").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S720(_: &S720) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S721(#[sval(label = "a")] i32, #[sval(label = "b")] bool);
pub fn ref_S721<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S721, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S721").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_value_begin(None, &sval::Label::new("a"))?;
    stream.value(&this.0)?;
    stream.record_value_end(None, &sval::Label::new("a"))?;
    stream.record_value_begin(None, &sval::Label::new("b"))?;
    stream.value(&this.1)?;
    stream.record_value_end(None, &sval::Label::new("b"))?;
    stream.record_end(None, Some(&sval::Label::new("S721").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S721(_: &S721) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S722 { #[sval(flatten)] first: Vec<i32>, r#type: &'static str, #[sval(flatten)] stream: Vec<i32>, index: bool }
pub fn ref_S722<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S722, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S722").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_record_tuple(&mut *stream, &this.first, at)?;
    stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_record_tuple(&mut *stream, &this.stream, at)?;
    stream.record_tuple_value_begin(None, &sval::Label::new("index").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.index)?;
    stream.record_tuple_value_end(None, &sval::Label::new("index").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.record_tuple_end(None, Some(&sval::Label::new("S722").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S722(_: &S722) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S723 { first: i32, #[sval(flatten)] r#type: Vec<i32>, #[sval(skip)] stream: Vec<u8>, #[sval(tag = "FIELD", data_tag = DATA)] index: bool }
pub fn ref_S723<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S723, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S723").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_record_tuple(&mut *stream, &this.r#type, at)?;
    stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("index").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.index)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("index").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.record_tuple_end(None, Some(&sval::Label::new("S723").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S723(_: &S723) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S724 { #[sval(flatten)] first: Vec<i32>, r#type: &'static str, #[sval(flatten)] stream: Vec<i32>, index: bool }
pub fn ref_S724<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S724, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S724").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.first, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.r#type)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.stream, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.index)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S724").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S724(_: &S724) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S725 { first: i32, #[sval(flatten)] r#type: Vec<i32>, #[sval(skip)] stream: Vec<u8>, #[sval(tag = "FIELD", data_tag = DATA)] index: bool }
pub fn ref_S725<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S725, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S725").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.first)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.r#type, at)?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.index)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S725").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S725(_: &S725) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S726 { #[sval(flatten)] first: Vec<i32>, r#type: &'static str, #[sval(flatten)] stream: Vec<i32>, index: bool }
pub fn ref_S726<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S726, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S726").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_record(&mut *stream, &this.first, at)?;
    stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.r#type)?;
    stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?;
    at = sval_flatten::flatten_to_record(&mut *stream, &this.stream, at)?;
    stream.record_value_begin(None, &sval::Label::new("index").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.index)?;
    stream.record_value_end(None, &sval::Label::new("index").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S726").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S726(_: &S726) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S727 { first: i32, #[sval(flatten)] r#type: Vec<i32>, #[sval(skip)] stream: Vec<u8>, #[sval(tag = "FIELD", data_tag = DATA)] index: bool }
pub fn ref_S727<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S727, stream: &mut St) -> sval::Result {
    stream.record_begin(None, Some(&sval::Label::new("S727").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.value(&this.first)?;
    stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?;
    at = sval_flatten::flatten_to_record(&mut *stream, &this.r#type, at)?;
    stream.record_value_begin(Some(&FIELD), &sval::Label::new("index").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.index)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.record_value_end(Some(&FIELD), &sval::Label::new("index").with_tag(&sval::tags::VALUE_IDENT))?;
    stream.record_end(None, Some(&sval::Label::new("S727").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S727(_: &S727) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S728 { #[sval(flatten)] first: Vec<i32>, r#type: &'static str, #[sval(flatten)] stream: Vec<i32>, index: bool }
pub fn ref_S728<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S728, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S728").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.first)?;
    stream.seq_value_begin()?;
    stream.value(&this.r#type)?;
    stream.seq_value_end()?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.stream)?;
    stream.seq_value_begin()?;
    stream.value(&this.index)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S728").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S728(_: &S728) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S729 { first: i32, #[sval(flatten)] r#type: Vec<i32>, #[sval(skip)] stream: Vec<u8>, #[sval(tag = "FIELD", data_tag = DATA)] index: bool }
pub fn ref_S729<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S729, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S729").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    stream.seq_value_begin()?;
    stream.value(&this.first)?;
    stream.seq_value_end()?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.r#type)?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.index)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S729").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S729(_: &S729) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S730(#[sval(flatten)] Vec<i32>, &'static str, #[sval(flatten)] Vec<i32>, bool);
pub fn ref_S730<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S730, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S730").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.0, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.2, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.3)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S730").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S730(_: &S730) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S731(i32, #[sval(flatten)] Vec<i32>, #[sval(skip)] Vec<u8>, #[sval(tag = "FIELD", data_tag = DATA)] bool);
pub fn ref_S731<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S731, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S731").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.1, at)?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.3)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S731").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S731(_: &S731) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S732(#[sval(flatten)] Vec<i32>, &'static str, #[sval(flatten)] Vec<i32>, bool);
pub fn ref_S732<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S732, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S732").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.0, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.2, at)?;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.3)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S732").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S732(_: &S732) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields)] pub struct S733(i32, #[sval(flatten)] Vec<i32>, #[sval(skip)] Vec<u8>, #[sval(tag = "FIELD", data_tag = DATA)] bool);
pub fn ref_S733<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S733, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S733").with_tag(&sval::tags::VALUE_IDENT)), None, None)?;
    let mut at: isize = 0;
    stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    at = sval_flatten::flatten_to_tuple(&mut *stream, &this.1, at)?;
    stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.3)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.tuple_value_end(Some(&FIELD), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?;
    at += 1;
    stream.tuple_end(None, Some(&sval::Label::new("S733").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S733(_: &S733) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S734(#[sval(flatten)] Vec<i32>, &'static str, #[sval(flatten)] Vec<i32>, bool);
pub fn ref_S734<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S734, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S734").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.0)?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.2)?;
    stream.seq_value_begin()?;
    stream.value(&this.3)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S734").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S734(_: &S734) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_fields)] pub struct S735(i32, #[sval(flatten)] Vec<i32>, #[sval(skip)] Vec<u8>, #[sval(tag = "FIELD", data_tag = DATA)] bool);
pub fn ref_S735<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S735, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S735").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.1)?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.3)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S735").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S735(_: &S735) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S736(#[sval(flatten)] Vec<i32>, &'static str, #[sval(flatten)] Vec<i32>, bool);
pub fn ref_S736<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S736, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S736").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.0)?;
    stream.seq_value_begin()?;
    stream.value(&this.1)?;
    stream.seq_value_end()?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.2)?;
    stream.seq_value_begin()?;
    stream.value(&this.3)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S736").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S736(_: &S736) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_fields, unindexed_fields)] pub struct S737(i32, #[sval(flatten)] Vec<i32>, #[sval(skip)] Vec<u8>, #[sval(tag = "FIELD", data_tag = DATA)] bool);
pub fn ref_S737<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval S737, stream: &mut St) -> sval::Result {
    stream.tagged_begin(None, Some(&sval::Label::new("S737").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.seq_begin(None)?;
    stream.seq_value_begin()?;
    stream.value(&this.0)?;
    stream.seq_value_end()?;
    sval_flatten::flatten_to_seq(&mut *stream, &this.1)?;
    stream.seq_value_begin()?;
    stream.tagged_begin(Some(&DATA), None, None)?;
    stream.value(&this.3)?;
    stream.tagged_end(Some(&DATA), None, None)?;
    stream.seq_value_end()?;
    stream.seq_end()?;
    stream.tagged_end(None, Some(&sval::Label::new("S737").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S737(_: &S737) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S738<T, U> { a: T, #[sval(skip)] b: U }
pub fn ref_S738<'sval, T: sval::Value, U: sval::Value, St: sval::Stream<'sval> + ?Sized>(this: &'sval S738<T, U>, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(None, Some(&sval::Label::new("S738").with_tag(&sval::tags::VALUE_IDENT)), None, Some(1))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("a").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.a)?;
    stream.record_tuple_value_end(None, &sval::Label::new("a").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(None, Some(&sval::Label::new("S738").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S738<T: sval::Value, U: sval::Value>(_: &S738<T, U>) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(tag = "CONTAINER")] pub struct S739<'a, T> { a: T, b: &'a str }
pub fn ref_S739<'sval, 'a, T: sval::Value, St: sval::Stream<'sval> + ?Sized>(this: &'sval S739<'a, T>, stream: &mut St) -> sval::Result {
    stream.record_tuple_begin(Some(&CONTAINER), Some(&sval::Label::new("S739").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("a").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.a)?;
    stream.record_tuple_value_end(None, &sval::Label::new("a").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_value_begin(None, &sval::Label::new("b").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.b)?;
    stream.record_tuple_value_end(None, &sval::Label::new("b").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.record_tuple_end(Some(&CONTAINER), Some(&sval::Label::new("S739").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S739<'a, T: sval::Value>(_: &S739<'a, T>) -> Option<sval::Tag> { Some(CONTAINER) }
#[derive(Value)]
pub struct S740<T, const M: usize>(T, [u8; M]);
pub fn ref_S740<'sval, T: sval::Value, const M: usize, St: sval::Stream<'sval> + ?Sized>(this: &'sval S740<T, M>, stream: &mut St) -> sval::Result {
    stream.tuple_begin(None, Some(&sval::Label::new("S740").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S740").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S740<T: sval::Value, const M: usize>(_: &S740<T, M>) -> Option<sval::Tag> { None }
#[derive(Value)]
pub struct S741<T>(T, Option<T>) where T: Clone;
pub fn ref_S741<'sval, T: sval::Value, St: sval::Stream<'sval> + ?Sized>(this: &'sval S741<T>, stream: &mut St) -> sval::Result where T: Clone {
    stream.tuple_begin(None, Some(&sval::Label::new("S741").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?;
    stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.0)?;
    stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.value(&this.1)?;
    stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?;
    stream.tuple_end(None, Some(&sval::Label::new("S741").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S741<T: sval::Value>(_: &S741<T>) -> Option<sval::Tag> where T: Clone { None }
#[derive(Value)]
pub struct S742<T>(Vec<T>) where T: Clone;
pub fn ref_S742<'sval, T: sval::Value, St: sval::Stream<'sval> + ?Sized>(this: &'sval S742<T>, stream: &mut St) -> sval::Result where T: Clone {
    stream.tagged_begin(None, Some(&sval::Label::new("S742").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    stream.value(&this.0)?;
    stream.tagged_end(None, Some(&sval::Label::new("S742").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_S742<T: sval::Value>(_: &S742<T>) -> Option<sval::Tag> where T: Clone { None }
#[derive(Value)]
pub enum E743 { A, B(i32), C(i32, &'static str), D { first: i32, r#type: &'static str } }
pub fn ref_E743<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E743, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E743").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E743::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E743::B(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E743::C(f0, f1) => { stream.tuple_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E743::D { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E743").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E743(_: &E743) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(tag = "CONTAINER")] pub enum E744 { A, B(i32), C(i32, &'static str), D { first: i32, r#type: &'static str } }
pub fn ref_E744<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E744, stream: &mut St) -> sval::Result {
    stream.enum_begin(Some(&CONTAINER), Some(&sval::Label::new("E744").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E744::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E744::B(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E744::C(f0, f1) => { stream.tuple_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E744::D { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(Some(&CONTAINER), Some(&sval::Label::new("E744").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E744(_: &E744) -> Option<sval::Tag> { Some(CONTAINER) }
#[derive(Value)]
#[sval(label = "a label")] pub enum E745 { A, B(i32), C(i32, &'static str), D { first: i32, r#type: &'static str } }
pub fn ref_E745<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E745, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("a label")), None)?;
    match this { E745::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E745::B(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E745::C(f0, f1) => { stream.tuple_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E745::D { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("a label")), None)?;
    Ok(())
}
pub fn tag_E745(_: &E745) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(label = A_LABEL)] pub enum E746 { A, B(i32), C(i32, &'static str), D { first: i32, r#type: &'static str } }
pub fn ref_E746<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E746, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&A_LABEL), None)?;
    match this { E746::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E746::B(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E746::C(f0, f1) => { stream.tuple_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E746::D { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&A_LABEL), None)?;
    Ok(())
}
pub fn tag_E746(_: &E746) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = 7)] pub enum E747 { A, B(i32), C(i32, &'static str), D { first: i32, r#type: &'static str } }
pub fn ref_E747<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E747, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E747").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(7isize)))?;
    match this { E747::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E747::B(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E747::C(f0, f1) => { stream.tuple_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E747::D { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E747").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(7isize)))?;
    Ok(())
}
pub fn tag_E747(_: &E747) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = -3)] pub enum E748 { A, B(i32), C(i32, &'static str), D { first: i32, r#type: &'static str } }
pub fn ref_E748<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E748, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E748").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-3isize)))?;
    match this { E748::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E748::B(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E748::C(f0, f1) => { stream.tuple_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E748::D { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E748").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-3isize)))?;
    Ok(())
}
pub fn tag_E748(_: &E748) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(index = AN_INDEX)] pub enum E749 { A, B(i32), C(i32, &'static str), D { first: i32, r#type: &'static str } }
pub fn ref_E749<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E749, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E749").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)))?;
    match this { E749::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E749::B(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E749::C(f0, f1) => { stream.tuple_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E749::D { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E749").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)))?;
    Ok(())
}
pub fn tag_E749(_: &E749) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(tag = "tags_of::CONTAINER2", label = "both", index = 2)] pub enum E750 { A, B(i32), C(i32, &'static str), D { first: i32, r#type: &'static str } }
pub fn ref_E750<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E750, stream: &mut St) -> sval::Result {
    stream.enum_begin(Some(&tags_of::CONTAINER2), Some(&sval::Label::new("both")), Some(&sval::Index::from(2isize)))?;
    match this { E750::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E750::B(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E750::C(f0, f1) => { stream.tuple_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E750::D { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(Some(&tags_of::CONTAINER2), Some(&sval::Label::new("both")), Some(&sval::Index::from(2isize)))?;
    Ok(())
}
pub fn tag_E750(_: &E750) -> Option<sval::Tag> { Some(tags_of::CONTAINER2) }
#[derive(Value)]
#[sval(unlabeled_variants)] pub enum E751 { A, B(i32), C(i32, &'static str), D { first: i32, r#type: &'static str } }
pub fn ref_E751<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E751, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E751").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E751::A => { stream.tag(None, None, Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E751::B(f0) => { stream.tagged_begin(None, None, Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(None, None, Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E751::C(f0, f1) => { stream.tuple_begin(None, None, Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, None, Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E751::D { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, None, Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, None, Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E751").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E751(_: &E751) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E752 { A, B(i32), C(i32, &'static str), D { first: i32, r#type: &'static str } }
pub fn ref_E752<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E752, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E752").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E752::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E752::B(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E752::C(f0, f1) => { stream.tuple_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E752::D { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E752").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E752(_: &E752) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants, unindexed_variants)] pub enum E753 { A, B(i32), C(i32, &'static str), D { first: i32, r#type: &'static str } }
pub fn ref_E753<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E753, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E753").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E753::A => { stream.tag(None, None, None)?; } E753::B(f0) => { stream.tagged_begin(None, None, None)?; stream.value(f0)?; stream.tagged_end(None, None, None)?; } E753::C(f0, f1) => { stream.tuple_begin(None, None, None, Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, None, None)?; } E753::D { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, None, None, Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, None, None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E753").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E753(_: &E753) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(dynamic)] pub enum E754 { A, B(i32), C(i32, &'static str), D { first: i32, r#type: &'static str } }
pub fn ref_E754<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E754, stream: &mut St) -> sval::Result {
    match this { E754::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E754::B(f0) => { stream.value(f0)?; } E754::C(f0, f1) => { stream.tuple_begin(None, None, None, Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, None, None)?; } E754::D { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, None, None, Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, None, None)?; } }
    Ok(())
}
#[derive(Value)]
pub enum E755 { A, #[sval(tag = "VARIANT")] B, r#C(i32), D }
pub fn ref_E755<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E755, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E755").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E755::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E755::B => { stream.tag(Some(&VARIANT), Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E755::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E755::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E755").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E755(_: &E755) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants)] pub enum E756 { A, #[sval(tag = "VARIANT")] B, r#C(i32), D }
pub fn ref_E756<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E756, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E756").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E756::A => { stream.tag(None, None, Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E756::B => { stream.tag(Some(&VARIANT), None, Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E756::r#C(f0) => { stream.tagged_begin(None, None, Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(None, None, Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E756::D => { stream.tag(None, None, Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E756").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E756(_: &E756) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E757 { A, #[sval(tag = "VARIANT")] B, r#C(i32), D }
pub fn ref_E757<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E757, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E757").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E757::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E757::B => { stream.tag(Some(&VARIANT), Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E757::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E757::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E757").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E757(_: &E757) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants, unindexed_variants)] pub enum E758 { A, #[sval(tag = "VARIANT")] B, r#C(i32), D }
pub fn ref_E758<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E758, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E758").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E758::A => { stream.tag(None, None, None)?; } E758::B => { stream.tag(Some(&VARIANT), None, None)?; } E758::r#C(f0) => { stream.tagged_begin(None, None, None)?; stream.value(f0)?; stream.tagged_end(None, None, None)?; } E758::D => { stream.tag(None, None, None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E758").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E758(_: &E758) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(dynamic)] pub enum E759 { A, #[sval(tag = "VARIANT")] B, r#C(i32), D }
pub fn ref_E759<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E759, stream: &mut St) -> sval::Result {
    match this { E759::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E759::B => { stream.tag(Some(&VARIANT), Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E759::r#C(f0) => { stream.value(f0)?; } E759::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    Ok(())
}
#[derive(Value)]
pub enum E760 { A, #[sval(tag = "VARIANT")] B(i32), r#C(i32), D }
pub fn ref_E760<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E760, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E760").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E760::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E760::B(f0) => { stream.tagged_begin(Some(&VARIANT), Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(Some(&VARIANT), Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E760::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E760::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E760").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E760(_: &E760) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants)] pub enum E761 { A, #[sval(tag = "VARIANT")] B(i32), r#C(i32), D }
pub fn ref_E761<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E761, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E761").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E761::A => { stream.tag(None, None, Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E761::B(f0) => { stream.tagged_begin(Some(&VARIANT), None, Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(Some(&VARIANT), None, Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E761::r#C(f0) => { stream.tagged_begin(None, None, Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(None, None, Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E761::D => { stream.tag(None, None, Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E761").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E761(_: &E761) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E762 { A, #[sval(tag = "VARIANT")] B(i32), r#C(i32), D }
pub fn ref_E762<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E762, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E762").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E762::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E762::B(f0) => { stream.tagged_begin(Some(&VARIANT), Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(Some(&VARIANT), Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E762::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E762::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E762").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E762(_: &E762) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants, unindexed_variants)] pub enum E763 { A, #[sval(tag = "VARIANT")] B(i32), r#C(i32), D }
pub fn ref_E763<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E763, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E763").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E763::A => { stream.tag(None, None, None)?; } E763::B(f0) => { stream.tagged_begin(Some(&VARIANT), None, None)?; stream.value(f0)?; stream.tagged_end(Some(&VARIANT), None, None)?; } E763::r#C(f0) => { stream.tagged_begin(None, None, None)?; stream.value(f0)?; stream.tagged_end(None, None, None)?; } E763::D => { stream.tag(None, None, None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E763").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E763(_: &E763) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E764 { A, #[sval(tag = "VARIANT")] B(i32, &'static str), r#C(i32), D }
pub fn ref_E764<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E764, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E764").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E764::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E764::B(f0, f1) => { stream.tuple_begin(Some(&VARIANT), Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(Some(&VARIANT), Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E764::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E764::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E764").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E764(_: &E764) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants)] pub enum E765 { A, #[sval(tag = "VARIANT")] B(i32, &'static str), r#C(i32), D }
pub fn ref_E765<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E765, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E765").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E765::A => { stream.tag(None, None, Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E765::B(f0, f1) => { stream.tuple_begin(Some(&VARIANT), None, Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(Some(&VARIANT), None, Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E765::r#C(f0) => { stream.tagged_begin(None, None, Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(None, None, Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E765::D => { stream.tag(None, None, Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E765").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E765(_: &E765) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E766 { A, #[sval(tag = "VARIANT")] B(i32, &'static str), r#C(i32), D }
pub fn ref_E766<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E766, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E766").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E766::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E766::B(f0, f1) => { stream.tuple_begin(Some(&VARIANT), Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(Some(&VARIANT), Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E766::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E766::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E766").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E766(_: &E766) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants, unindexed_variants)] pub enum E767 { A, #[sval(tag = "VARIANT")] B(i32, &'static str), r#C(i32), D }
pub fn ref_E767<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E767, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E767").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E767::A => { stream.tag(None, None, None)?; } E767::B(f0, f1) => { stream.tuple_begin(Some(&VARIANT), None, None, Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(Some(&VARIANT), None, None)?; } E767::r#C(f0) => { stream.tagged_begin(None, None, None)?; stream.value(f0)?; stream.tagged_end(None, None, None)?; } E767::D => { stream.tag(None, None, None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E767").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E767(_: &E767) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(dynamic)] pub enum E768 { A, #[sval(tag = "VARIANT")] B(i32, &'static str), r#C(i32), D }
pub fn ref_E768<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E768, stream: &mut St) -> sval::Result {
    match this { E768::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E768::B(f0, f1) => { stream.tuple_begin(Some(&VARIANT), None, None, Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(Some(&VARIANT), None, None)?; } E768::r#C(f0) => { stream.value(f0)?; } E768::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    Ok(())
}
#[derive(Value)]
pub enum E769 { A, #[sval(tag = "VARIANT")] B { first: i32, r#type: &'static str }, r#C(i32), D }
pub fn ref_E769<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E769, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E769").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E769::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E769::B { first: f0, r#type: f1 } => { stream.record_tuple_begin(Some(&VARIANT), Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(Some(&VARIANT), Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E769::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E769::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E769").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E769(_: &E769) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants)] pub enum E770 { A, #[sval(tag = "VARIANT")] B { first: i32, r#type: &'static str }, r#C(i32), D }
pub fn ref_E770<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E770, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E770").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E770::A => { stream.tag(None, None, Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E770::B { first: f0, r#type: f1 } => { stream.record_tuple_begin(Some(&VARIANT), None, Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(Some(&VARIANT), None, Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E770::r#C(f0) => { stream.tagged_begin(None, None, Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(None, None, Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E770::D => { stream.tag(None, None, Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E770").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E770(_: &E770) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E771 { A, #[sval(tag = "VARIANT")] B { first: i32, r#type: &'static str }, r#C(i32), D }
pub fn ref_E771<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E771, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E771").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E771::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E771::B { first: f0, r#type: f1 } => { stream.record_tuple_begin(Some(&VARIANT), Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), None, Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(Some(&VARIANT), Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E771::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E771::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E771").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E771(_: &E771) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants, unindexed_variants)] pub enum E772 { A, #[sval(tag = "VARIANT")] B { first: i32, r#type: &'static str }, r#C(i32), D }
pub fn ref_E772<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E772, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E772").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E772::A => { stream.tag(None, None, None)?; } E772::B { first: f0, r#type: f1 } => { stream.record_tuple_begin(Some(&VARIANT), None, None, Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(Some(&VARIANT), None, None)?; } E772::r#C(f0) => { stream.tagged_begin(None, None, None)?; stream.value(f0)?; stream.tagged_end(None, None, None)?; } E772::D => { stream.tag(None, None, None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E772").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E772(_: &E772) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(dynamic)] pub enum E773 { A, #[sval(tag = "VARIANT")] B { first: i32, r#type: &'static str }, r#C(i32), D }
pub fn ref_E773<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E773, stream: &mut St) -> sval::Result {
    match this { E773::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E773::B { first: f0, r#type: f1 } => { stream.record_tuple_begin(Some(&VARIANT), None, None, Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(Some(&VARIANT), None, None)?; } E773::r#C(f0) => { stream.value(f0)?; } E773::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    Ok(())
}
#[derive(Value)]
pub enum E774 { #[sval(tag = "VARIANT")] A, B, C { first: i32, r#type: &'static str } }
pub fn ref_E774<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E774, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E774").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E774::A => { stream.tag(Some(&VARIANT), Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E774::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E774::C { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E774").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E774(_: &E774) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E775 { A, #[sval(label = "other")] B, r#C(i32), D }
pub fn ref_E775<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E775, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E775").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E775::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E775::B => { stream.tag(None, Some(&sval::Label::new("other")), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E775::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E775::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E775").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E775(_: &E775) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E776 { A, #[sval(label = "other")] B, r#C(i32), D }
pub fn ref_E776<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E776, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E776").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E776::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E776::B => { stream.tag(None, Some(&sval::Label::new("other")), None)?; } E776::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E776::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E776").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E776(_: &E776) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(dynamic)] pub enum E777 { A, #[sval(label = "other")] B, r#C(i32), D }
pub fn ref_E777<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E777, stream: &mut St) -> sval::Result {
    match this { E777::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E777::B => { stream.tag(None, Some(&sval::Label::new("other")), None)?; } E777::r#C(f0) => { stream.value(f0)?; } E777::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    Ok(())
}
#[derive(Value)]
pub enum E778 { A, #[sval(label = "other")] B(i32), r#C(i32), D }
pub fn ref_E778<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E778, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E778").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E778::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E778::B(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("other")), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("other")), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E778::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E778::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E778").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E778(_: &E778) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E779 { A, #[sval(label = "other")] B(i32), r#C(i32), D }
pub fn ref_E779<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E779, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E779").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E779::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E779::B(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("other")), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("other")), None)?; } E779::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E779::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E779").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E779(_: &E779) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E780 { A, #[sval(label = "other")] B(i32, &'static str), r#C(i32), D }
pub fn ref_E780<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E780, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E780").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E780::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E780::B(f0, f1) => { stream.tuple_begin(None, Some(&sval::Label::new("other")), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("other")), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E780::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E780::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E780").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E780(_: &E780) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E781 { A, #[sval(label = "other")] B(i32, &'static str), r#C(i32), D }
pub fn ref_E781<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E781, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E781").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E781::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E781::B(f0, f1) => { stream.tuple_begin(None, Some(&sval::Label::new("other")), None, Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("other")), None)?; } E781::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E781::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E781").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E781(_: &E781) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E782 { A, #[sval(label = "other")] B { first: i32, r#type: &'static str }, r#C(i32), D }
pub fn ref_E782<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E782, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E782").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E782::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E782::B { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("other")), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("other")), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E782::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E782::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E782").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E782(_: &E782) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E783 { A, #[sval(label = "other")] B { first: i32, r#type: &'static str }, r#C(i32), D }
pub fn ref_E783<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E783, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E783").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E783::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E783::B { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("other")), None, Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("other")), None)?; } E783::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E783::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E783").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E783(_: &E783) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E784 { #[sval(label = "other")] A, B, C { first: i32, r#type: &'static str } }
pub fn ref_E784<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E784, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E784").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E784::A => { stream.tag(None, Some(&sval::Label::new("other")), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E784::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E784::C { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E784").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E784(_: &E784) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E785 { A, #[sval(label = A_LABEL)] B, r#C(i32), D }
pub fn ref_E785<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E785, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E785").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E785::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E785::B => { stream.tag(None, Some(&A_LABEL), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E785::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E785::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E785").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E785(_: &E785) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E786 { A, #[sval(label = A_LABEL)] B, r#C(i32), D }
pub fn ref_E786<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E786, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E786").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E786::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E786::B => { stream.tag(None, Some(&A_LABEL), None)?; } E786::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E786::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E786").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E786(_: &E786) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(dynamic)] pub enum E787 { A, #[sval(label = A_LABEL)] B, r#C(i32), D }
pub fn ref_E787<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E787, stream: &mut St) -> sval::Result {
    match this { E787::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E787::B => { stream.tag(None, Some(&A_LABEL), None)?; } E787::r#C(f0) => { stream.value(f0)?; } E787::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    Ok(())
}
#[derive(Value)]
pub enum E788 { A, #[sval(label = A_LABEL)] B(i32), r#C(i32), D }
pub fn ref_E788<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E788, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E788").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E788::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E788::B(f0) => { stream.tagged_begin(None, Some(&A_LABEL), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(None, Some(&A_LABEL), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E788::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E788::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E788").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E788(_: &E788) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E789 { A, #[sval(label = A_LABEL)] B(i32), r#C(i32), D }
pub fn ref_E789<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E789, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E789").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E789::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E789::B(f0) => { stream.tagged_begin(None, Some(&A_LABEL), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&A_LABEL), None)?; } E789::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E789::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E789").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E789(_: &E789) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E790 { A, #[sval(label = A_LABEL)] B(i32, &'static str), r#C(i32), D }
pub fn ref_E790<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E790, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E790").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E790::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E790::B(f0, f1) => { stream.tuple_begin(None, Some(&A_LABEL), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&A_LABEL), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E790::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E790::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E790").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E790(_: &E790) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E791 { A, #[sval(label = A_LABEL)] B(i32, &'static str), r#C(i32), D }
pub fn ref_E791<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E791, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E791").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E791::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E791::B(f0, f1) => { stream.tuple_begin(None, Some(&A_LABEL), None, Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&A_LABEL), None)?; } E791::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E791::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E791").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E791(_: &E791) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E792 { A, #[sval(label = A_LABEL)] B { first: i32, r#type: &'static str }, r#C(i32), D }
pub fn ref_E792<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E792, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E792").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E792::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E792::B { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, Some(&A_LABEL), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&A_LABEL), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E792::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E792::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E792").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E792(_: &E792) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E793 { A, #[sval(label = A_LABEL)] B { first: i32, r#type: &'static str }, r#C(i32), D }
pub fn ref_E793<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E793, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E793").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E793::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E793::B { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, Some(&A_LABEL), None, Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&A_LABEL), None)?; } E793::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E793::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E793").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E793(_: &E793) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E794 { #[sval(label = A_LABEL)] A, B, C { first: i32, r#type: &'static str } }
pub fn ref_E794<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E794, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E794").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E794::A => { stream.tag(None, Some(&A_LABEL), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E794::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E794::C { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E794").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E794(_: &E794) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E795 { A, #[sval(index = 4)] B, r#C(i32), D }
pub fn ref_E795<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E795, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E795").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E795::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E795::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(4isize)))?; } E795::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(5isize)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(5isize)))?; } E795::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(6isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E795").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E795(_: &E795) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants)] pub enum E796 { A, #[sval(index = 4)] B, r#C(i32), D }
pub fn ref_E796<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E796, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E796").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E796::A => { stream.tag(None, None, Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E796::B => { stream.tag(None, None, Some(&sval::Index::from(4isize)))?; } E796::r#C(f0) => { stream.tagged_begin(None, None, Some(&sval::Index::from(5isize)))?; stream.value(f0)?; stream.tagged_end(None, None, Some(&sval::Index::from(5isize)))?; } E796::D => { stream.tag(None, None, Some(&sval::Index::from(6isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E796").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E796(_: &E796) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E797 { A, #[sval(index = 4)] B, r#C(i32), D }
pub fn ref_E797<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E797, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E797").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E797::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E797::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(4isize)))?; } E797::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E797::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E797").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E797(_: &E797) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants, unindexed_variants)] pub enum E798 { A, #[sval(index = 4)] B, r#C(i32), D }
pub fn ref_E798<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E798, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E798").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E798::A => { stream.tag(None, None, None)?; } E798::B => { stream.tag(None, None, Some(&sval::Index::from(4isize)))?; } E798::r#C(f0) => { stream.tagged_begin(None, None, None)?; stream.value(f0)?; stream.tagged_end(None, None, None)?; } E798::D => { stream.tag(None, None, None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E798").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E798(_: &E798) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(dynamic)] pub enum E799 { A, #[sval(index = 4)] B, r#C(i32), D }
pub fn ref_E799<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E799, stream: &mut St) -> sval::Result {
    match this { E799::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E799::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(4isize)))?; } E799::r#C(f0) => { stream.value(f0)?; } E799::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    Ok(())
}
#[derive(Value)]
pub enum E800 { A, #[sval(index = 4)] B(i32), r#C(i32), D }
pub fn ref_E800<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E800, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E800").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E800::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E800::B(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(4isize)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(4isize)))?; } E800::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(5isize)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(5isize)))?; } E800::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(6isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E800").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E800(_: &E800) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants)] pub enum E801 { A, #[sval(index = 4)] B(i32), r#C(i32), D }
pub fn ref_E801<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E801, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E801").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E801::A => { stream.tag(None, None, Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E801::B(f0) => { stream.tagged_begin(None, None, Some(&sval::Index::from(4isize)))?; stream.value(f0)?; stream.tagged_end(None, None, Some(&sval::Index::from(4isize)))?; } E801::r#C(f0) => { stream.tagged_begin(None, None, Some(&sval::Index::from(5isize)))?; stream.value(f0)?; stream.tagged_end(None, None, Some(&sval::Index::from(5isize)))?; } E801::D => { stream.tag(None, None, Some(&sval::Index::from(6isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E801").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E801(_: &E801) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E802 { A, #[sval(index = 4)] B(i32), r#C(i32), D }
pub fn ref_E802<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E802, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E802").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E802::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E802::B(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(4isize)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(4isize)))?; } E802::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E802::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E802").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E802(_: &E802) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants, unindexed_variants)] pub enum E803 { A, #[sval(index = 4)] B(i32), r#C(i32), D }
pub fn ref_E803<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E803, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E803").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E803::A => { stream.tag(None, None, None)?; } E803::B(f0) => { stream.tagged_begin(None, None, Some(&sval::Index::from(4isize)))?; stream.value(f0)?; stream.tagged_end(None, None, Some(&sval::Index::from(4isize)))?; } E803::r#C(f0) => { stream.tagged_begin(None, None, None)?; stream.value(f0)?; stream.tagged_end(None, None, None)?; } E803::D => { stream.tag(None, None, None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E803").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E803(_: &E803) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E804 { A, #[sval(index = 4)] B(i32, &'static str), r#C(i32), D }
pub fn ref_E804<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E804, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E804").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E804::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E804::B(f0, f1) => { stream.tuple_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(4isize)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(4isize)))?; } E804::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(5isize)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(5isize)))?; } E804::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(6isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E804").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E804(_: &E804) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants)] pub enum E805 { A, #[sval(index = 4)] B(i32, &'static str), r#C(i32), D }
pub fn ref_E805<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E805, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E805").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E805::A => { stream.tag(None, None, Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E805::B(f0, f1) => { stream.tuple_begin(None, None, Some(&sval::Index::from(4isize)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, None, Some(&sval::Index::from(4isize)))?; } E805::r#C(f0) => { stream.tagged_begin(None, None, Some(&sval::Index::from(5isize)))?; stream.value(f0)?; stream.tagged_end(None, None, Some(&sval::Index::from(5isize)))?; } E805::D => { stream.tag(None, None, Some(&sval::Index::from(6isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E805").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E805(_: &E805) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E806 { A, #[sval(index = 4)] B(i32, &'static str), r#C(i32), D }
pub fn ref_E806<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E806, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E806").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E806::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E806::B(f0, f1) => { stream.tuple_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(4isize)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(4isize)))?; } E806::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E806::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E806").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E806(_: &E806) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants, unindexed_variants)] pub enum E807 { A, #[sval(index = 4)] B(i32, &'static str), r#C(i32), D }
pub fn ref_E807<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E807, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E807").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E807::A => { stream.tag(None, None, None)?; } E807::B(f0, f1) => { stream.tuple_begin(None, None, Some(&sval::Index::from(4isize)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, None, Some(&sval::Index::from(4isize)))?; } E807::r#C(f0) => { stream.tagged_begin(None, None, None)?; stream.value(f0)?; stream.tagged_end(None, None, None)?; } E807::D => { stream.tag(None, None, None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E807").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E807(_: &E807) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E808 { A, #[sval(index = 4)] B { first: i32, r#type: &'static str }, r#C(i32), D }
pub fn ref_E808<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E808, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E808").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E808::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E808::B { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(4isize)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(4isize)))?; } E808::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(5isize)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(5isize)))?; } E808::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(6isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E808").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E808(_: &E808) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants)] pub enum E809 { A, #[sval(index = 4)] B { first: i32, r#type: &'static str }, r#C(i32), D }
pub fn ref_E809<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E809, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E809").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E809::A => { stream.tag(None, None, Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E809::B { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, None, Some(&sval::Index::from(4isize)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, None, Some(&sval::Index::from(4isize)))?; } E809::r#C(f0) => { stream.tagged_begin(None, None, Some(&sval::Index::from(5isize)))?; stream.value(f0)?; stream.tagged_end(None, None, Some(&sval::Index::from(5isize)))?; } E809::D => { stream.tag(None, None, Some(&sval::Index::from(6isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E809").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E809(_: &E809) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E810 { A, #[sval(index = 4)] B { first: i32, r#type: &'static str }, r#C(i32), D }
pub fn ref_E810<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E810, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E810").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E810::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E810::B { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(4isize)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(4isize)))?; } E810::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E810::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E810").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E810(_: &E810) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants, unindexed_variants)] pub enum E811 { A, #[sval(index = 4)] B { first: i32, r#type: &'static str }, r#C(i32), D }
pub fn ref_E811<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E811, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E811").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E811::A => { stream.tag(None, None, None)?; } E811::B { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, None, Some(&sval::Index::from(4isize)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, None, Some(&sval::Index::from(4isize)))?; } E811::r#C(f0) => { stream.tagged_begin(None, None, None)?; stream.value(f0)?; stream.tagged_end(None, None, None)?; } E811::D => { stream.tag(None, None, None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E811").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E811(_: &E811) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E812 { #[sval(index = 4)] A, B, C { first: i32, r#type: &'static str } }
pub fn ref_E812<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E812, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E812").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E812::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(4isize)))?; } E812::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(5isize)))?; } E812::C { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(6isize)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(6isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E812").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E812(_: &E812) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E813 { A, #[sval(index = -2)] B, r#C(i32), D }
pub fn ref_E813<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E813, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E813").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E813::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E813::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-2isize)))?; } E813::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-1isize)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-1isize)))?; } E813::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E813").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E813(_: &E813) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants)] pub enum E814 { A, #[sval(index = -2)] B, r#C(i32), D }
pub fn ref_E814<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E814, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E814").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E814::A => { stream.tag(None, None, Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E814::B => { stream.tag(None, None, Some(&sval::Index::from(-2isize)))?; } E814::r#C(f0) => { stream.tagged_begin(None, None, Some(&sval::Index::from(-1isize)))?; stream.value(f0)?; stream.tagged_end(None, None, Some(&sval::Index::from(-1isize)))?; } E814::D => { stream.tag(None, None, Some(&sval::Index::from(0isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E814").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E814(_: &E814) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E815 { A, #[sval(index = -2)] B, r#C(i32), D }
pub fn ref_E815<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E815, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E815").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E815::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E815::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-2isize)))?; } E815::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E815::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E815").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E815(_: &E815) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants, unindexed_variants)] pub enum E816 { A, #[sval(index = -2)] B, r#C(i32), D }
pub fn ref_E816<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E816, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E816").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E816::A => { stream.tag(None, None, None)?; } E816::B => { stream.tag(None, None, Some(&sval::Index::from(-2isize)))?; } E816::r#C(f0) => { stream.tagged_begin(None, None, None)?; stream.value(f0)?; stream.tagged_end(None, None, None)?; } E816::D => { stream.tag(None, None, None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E816").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E816(_: &E816) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(dynamic)] pub enum E817 { A, #[sval(index = -2)] B, r#C(i32), D }
pub fn ref_E817<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E817, stream: &mut St) -> sval::Result {
    match this { E817::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E817::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-2isize)))?; } E817::r#C(f0) => { stream.value(f0)?; } E817::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    Ok(())
}
#[derive(Value)]
pub enum E818 { A, #[sval(index = -2)] B(i32), r#C(i32), D }
pub fn ref_E818<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E818, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E818").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E818::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E818::B(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-2isize)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-2isize)))?; } E818::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-1isize)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-1isize)))?; } E818::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E818").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E818(_: &E818) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants)] pub enum E819 { A, #[sval(index = -2)] B(i32), r#C(i32), D }
pub fn ref_E819<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E819, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E819").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E819::A => { stream.tag(None, None, Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E819::B(f0) => { stream.tagged_begin(None, None, Some(&sval::Index::from(-2isize)))?; stream.value(f0)?; stream.tagged_end(None, None, Some(&sval::Index::from(-2isize)))?; } E819::r#C(f0) => { stream.tagged_begin(None, None, Some(&sval::Index::from(-1isize)))?; stream.value(f0)?; stream.tagged_end(None, None, Some(&sval::Index::from(-1isize)))?; } E819::D => { stream.tag(None, None, Some(&sval::Index::from(0isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E819").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E819(_: &E819) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E820 { A, #[sval(index = -2)] B(i32), r#C(i32), D }
pub fn ref_E820<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E820, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E820").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E820::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E820::B(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-2isize)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-2isize)))?; } E820::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E820::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E820").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E820(_: &E820) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants, unindexed_variants)] pub enum E821 { A, #[sval(index = -2)] B(i32), r#C(i32), D }
pub fn ref_E821<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E821, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E821").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E821::A => { stream.tag(None, None, None)?; } E821::B(f0) => { stream.tagged_begin(None, None, Some(&sval::Index::from(-2isize)))?; stream.value(f0)?; stream.tagged_end(None, None, Some(&sval::Index::from(-2isize)))?; } E821::r#C(f0) => { stream.tagged_begin(None, None, None)?; stream.value(f0)?; stream.tagged_end(None, None, None)?; } E821::D => { stream.tag(None, None, None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E821").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E821(_: &E821) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E822 { A, #[sval(index = -2)] B(i32, &'static str), r#C(i32), D }
pub fn ref_E822<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E822, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E822").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E822::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E822::B(f0, f1) => { stream.tuple_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-2isize)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-2isize)))?; } E822::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-1isize)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-1isize)))?; } E822::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E822").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E822(_: &E822) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants)] pub enum E823 { A, #[sval(index = -2)] B(i32, &'static str), r#C(i32), D }
pub fn ref_E823<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E823, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E823").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E823::A => { stream.tag(None, None, Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E823::B(f0, f1) => { stream.tuple_begin(None, None, Some(&sval::Index::from(-2isize)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, None, Some(&sval::Index::from(-2isize)))?; } E823::r#C(f0) => { stream.tagged_begin(None, None, Some(&sval::Index::from(-1isize)))?; stream.value(f0)?; stream.tagged_end(None, None, Some(&sval::Index::from(-1isize)))?; } E823::D => { stream.tag(None, None, Some(&sval::Index::from(0isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E823").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E823(_: &E823) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E824 { A, #[sval(index = -2)] B(i32, &'static str), r#C(i32), D }
pub fn ref_E824<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E824, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E824").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E824::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E824::B(f0, f1) => { stream.tuple_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-2isize)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-2isize)))?; } E824::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E824::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E824").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E824(_: &E824) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants, unindexed_variants)] pub enum E825 { A, #[sval(index = -2)] B(i32, &'static str), r#C(i32), D }
pub fn ref_E825<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E825, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E825").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E825::A => { stream.tag(None, None, None)?; } E825::B(f0, f1) => { stream.tuple_begin(None, None, Some(&sval::Index::from(-2isize)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, None, Some(&sval::Index::from(-2isize)))?; } E825::r#C(f0) => { stream.tagged_begin(None, None, None)?; stream.value(f0)?; stream.tagged_end(None, None, None)?; } E825::D => { stream.tag(None, None, None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E825").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E825(_: &E825) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E826 { A, #[sval(index = -2)] B { first: i32, r#type: &'static str }, r#C(i32), D }
pub fn ref_E826<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E826, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E826").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E826::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E826::B { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-2isize)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-2isize)))?; } E826::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-1isize)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-1isize)))?; } E826::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E826").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E826(_: &E826) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants)] pub enum E827 { A, #[sval(index = -2)] B { first: i32, r#type: &'static str }, r#C(i32), D }
pub fn ref_E827<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E827, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E827").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E827::A => { stream.tag(None, None, Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E827::B { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, None, Some(&sval::Index::from(-2isize)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, None, Some(&sval::Index::from(-2isize)))?; } E827::r#C(f0) => { stream.tagged_begin(None, None, Some(&sval::Index::from(-1isize)))?; stream.value(f0)?; stream.tagged_end(None, None, Some(&sval::Index::from(-1isize)))?; } E827::D => { stream.tag(None, None, Some(&sval::Index::from(0isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E827").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E827(_: &E827) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E828 { A, #[sval(index = -2)] B { first: i32, r#type: &'static str }, r#C(i32), D }
pub fn ref_E828<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E828, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E828").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E828::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E828::B { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-2isize)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-2isize)))?; } E828::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E828::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E828").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E828(_: &E828) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants, unindexed_variants)] pub enum E829 { A, #[sval(index = -2)] B { first: i32, r#type: &'static str }, r#C(i32), D }
pub fn ref_E829<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E829, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E829").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E829::A => { stream.tag(None, None, None)?; } E829::B { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, None, Some(&sval::Index::from(-2isize)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, None, Some(&sval::Index::from(-2isize)))?; } E829::r#C(f0) => { stream.tagged_begin(None, None, None)?; stream.value(f0)?; stream.tagged_end(None, None, None)?; } E829::D => { stream.tag(None, None, None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E829").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E829(_: &E829) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E830 { #[sval(index = -2)] A, B, C { first: i32, r#type: &'static str } }
pub fn ref_E830<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E830, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E830").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E830::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-2isize)))?; } E830::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-1isize)))?; } E830::C { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E830").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E830(_: &E830) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E831 { A, #[sval(index = AN_INDEX)] B, r#C(i32), D }
pub fn ref_E831<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E831, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E831").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E831::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E831::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)))?; } E831::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize)))?; } E831::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E831").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E831(_: &E831) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants)] pub enum E832 { A, #[sval(index = AN_INDEX)] B, r#C(i32), D }
pub fn ref_E832<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E832, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E832").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E832::A => { stream.tag(None, None, Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E832::B => { stream.tag(None, None, Some(&sval::Index::from(AN_INDEX)))?; } E832::r#C(f0) => { stream.tagged_begin(None, None, Some(&sval::Index::from(2isize)))?; stream.value(f0)?; stream.tagged_end(None, None, Some(&sval::Index::from(2isize)))?; } E832::D => { stream.tag(None, None, Some(&sval::Index::from(3isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E832").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E832(_: &E832) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E833 { A, #[sval(index = AN_INDEX)] B, r#C(i32), D }
pub fn ref_E833<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E833, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E833").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E833::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E833::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)))?; } E833::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E833::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E833").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E833(_: &E833) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants, unindexed_variants)] pub enum E834 { A, #[sval(index = AN_INDEX)] B, r#C(i32), D }
pub fn ref_E834<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E834, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E834").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E834::A => { stream.tag(None, None, None)?; } E834::B => { stream.tag(None, None, Some(&sval::Index::from(AN_INDEX)))?; } E834::r#C(f0) => { stream.tagged_begin(None, None, None)?; stream.value(f0)?; stream.tagged_end(None, None, None)?; } E834::D => { stream.tag(None, None, None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E834").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E834(_: &E834) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(dynamic)] pub enum E835 { A, #[sval(index = AN_INDEX)] B, r#C(i32), D }
pub fn ref_E835<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E835, stream: &mut St) -> sval::Result {
    match this { E835::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E835::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)))?; } E835::r#C(f0) => { stream.value(f0)?; } E835::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    Ok(())
}
#[derive(Value)]
pub enum E836 { A, #[sval(index = AN_INDEX)] B(i32), r#C(i32), D }
pub fn ref_E836<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E836, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E836").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E836::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E836::B(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)))?; } E836::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize)))?; } E836::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E836").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E836(_: &E836) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants)] pub enum E837 { A, #[sval(index = AN_INDEX)] B(i32), r#C(i32), D }
pub fn ref_E837<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E837, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E837").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E837::A => { stream.tag(None, None, Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E837::B(f0) => { stream.tagged_begin(None, None, Some(&sval::Index::from(AN_INDEX)))?; stream.value(f0)?; stream.tagged_end(None, None, Some(&sval::Index::from(AN_INDEX)))?; } E837::r#C(f0) => { stream.tagged_begin(None, None, Some(&sval::Index::from(2isize)))?; stream.value(f0)?; stream.tagged_end(None, None, Some(&sval::Index::from(2isize)))?; } E837::D => { stream.tag(None, None, Some(&sval::Index::from(3isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E837").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E837(_: &E837) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E838 { A, #[sval(index = AN_INDEX)] B(i32), r#C(i32), D }
pub fn ref_E838<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E838, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E838").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E838::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E838::B(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)))?; } E838::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E838::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E838").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E838(_: &E838) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants, unindexed_variants)] pub enum E839 { A, #[sval(index = AN_INDEX)] B(i32), r#C(i32), D }
pub fn ref_E839<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E839, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E839").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E839::A => { stream.tag(None, None, None)?; } E839::B(f0) => { stream.tagged_begin(None, None, Some(&sval::Index::from(AN_INDEX)))?; stream.value(f0)?; stream.tagged_end(None, None, Some(&sval::Index::from(AN_INDEX)))?; } E839::r#C(f0) => { stream.tagged_begin(None, None, None)?; stream.value(f0)?; stream.tagged_end(None, None, None)?; } E839::D => { stream.tag(None, None, None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E839").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E839(_: &E839) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E840 { A, #[sval(index = AN_INDEX)] B(i32, &'static str), r#C(i32), D }
pub fn ref_E840<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E840, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E840").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E840::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E840::B(f0, f1) => { stream.tuple_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)))?; } E840::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize)))?; } E840::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E840").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E840(_: &E840) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants)] pub enum E841 { A, #[sval(index = AN_INDEX)] B(i32, &'static str), r#C(i32), D }
pub fn ref_E841<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E841, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E841").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E841::A => { stream.tag(None, None, Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E841::B(f0, f1) => { stream.tuple_begin(None, None, Some(&sval::Index::from(AN_INDEX)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, None, Some(&sval::Index::from(AN_INDEX)))?; } E841::r#C(f0) => { stream.tagged_begin(None, None, Some(&sval::Index::from(2isize)))?; stream.value(f0)?; stream.tagged_end(None, None, Some(&sval::Index::from(2isize)))?; } E841::D => { stream.tag(None, None, Some(&sval::Index::from(3isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E841").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E841(_: &E841) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E842 { A, #[sval(index = AN_INDEX)] B(i32, &'static str), r#C(i32), D }
pub fn ref_E842<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E842, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E842").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E842::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E842::B(f0, f1) => { stream.tuple_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)))?; } E842::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E842::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E842").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E842(_: &E842) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants, unindexed_variants)] pub enum E843 { A, #[sval(index = AN_INDEX)] B(i32, &'static str), r#C(i32), D }
pub fn ref_E843<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E843, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E843").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E843::A => { stream.tag(None, None, None)?; } E843::B(f0, f1) => { stream.tuple_begin(None, None, Some(&sval::Index::from(AN_INDEX)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, None, Some(&sval::Index::from(AN_INDEX)))?; } E843::r#C(f0) => { stream.tagged_begin(None, None, None)?; stream.value(f0)?; stream.tagged_end(None, None, None)?; } E843::D => { stream.tag(None, None, None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E843").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E843(_: &E843) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E844 { A, #[sval(index = AN_INDEX)] B { first: i32, r#type: &'static str }, r#C(i32), D }
pub fn ref_E844<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E844, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E844").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E844::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E844::B { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)))?; } E844::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize)))?; } E844::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E844").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E844(_: &E844) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants)] pub enum E845 { A, #[sval(index = AN_INDEX)] B { first: i32, r#type: &'static str }, r#C(i32), D }
pub fn ref_E845<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E845, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E845").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E845::A => { stream.tag(None, None, Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E845::B { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, None, Some(&sval::Index::from(AN_INDEX)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, None, Some(&sval::Index::from(AN_INDEX)))?; } E845::r#C(f0) => { stream.tagged_begin(None, None, Some(&sval::Index::from(2isize)))?; stream.value(f0)?; stream.tagged_end(None, None, Some(&sval::Index::from(2isize)))?; } E845::D => { stream.tag(None, None, Some(&sval::Index::from(3isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E845").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E845(_: &E845) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E846 { A, #[sval(index = AN_INDEX)] B { first: i32, r#type: &'static str }, r#C(i32), D }
pub fn ref_E846<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E846, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E846").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E846::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E846::B { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)))?; } E846::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E846::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E846").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E846(_: &E846) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unlabeled_variants, unindexed_variants)] pub enum E847 { A, #[sval(index = AN_INDEX)] B { first: i32, r#type: &'static str }, r#C(i32), D }
pub fn ref_E847<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E847, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E847").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E847::A => { stream.tag(None, None, None)?; } E847::B { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, None, Some(&sval::Index::from(AN_INDEX)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, None, Some(&sval::Index::from(AN_INDEX)))?; } E847::r#C(f0) => { stream.tagged_begin(None, None, None)?; stream.value(f0)?; stream.tagged_end(None, None, None)?; } E847::D => { stream.tag(None, None, None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E847").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E847(_: &E847) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E848 { #[sval(index = AN_INDEX)] A, B, C { first: i32, r#type: &'static str } }
pub fn ref_E848<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E848, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E848").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E848::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(AN_INDEX)))?; } E848::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize)))?; } E848::C { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E848").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E848(_: &E848) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E849 { A, #[sval(tag = "VARIANT", label = "all", index = 1)] B, r#C(i32), D }
pub fn ref_E849<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E849, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E849").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E849::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E849::B => { stream.tag(Some(&VARIANT), Some(&sval::Label::new("all")), Some(&sval::Index::from(1isize)))?; } E849::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize)))?; } E849::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E849").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E849(_: &E849) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E850 { A, #[sval(tag = "VARIANT", label = "all", index = 1)] B, r#C(i32), D }
pub fn ref_E850<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E850, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E850").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E850::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E850::B => { stream.tag(Some(&VARIANT), Some(&sval::Label::new("all")), Some(&sval::Index::from(1isize)))?; } E850::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E850::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E850").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E850(_: &E850) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(dynamic)] pub enum E851 { A, #[sval(tag = "VARIANT", label = "all", index = 1)] B, r#C(i32), D }
pub fn ref_E851<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E851, stream: &mut St) -> sval::Result {
    match this { E851::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E851::B => { stream.tag(Some(&VARIANT), Some(&sval::Label::new("all")), Some(&sval::Index::from(1isize)))?; } E851::r#C(f0) => { stream.value(f0)?; } E851::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    Ok(())
}
#[derive(Value)]
pub enum E852 { A, #[sval(tag = "VARIANT", label = "all", index = 1)] B(i32), r#C(i32), D }
pub fn ref_E852<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E852, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E852").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E852::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E852::B(f0) => { stream.tagged_begin(Some(&VARIANT), Some(&sval::Label::new("all")), Some(&sval::Index::from(1isize)))?; stream.value(f0)?; stream.tagged_end(Some(&VARIANT), Some(&sval::Label::new("all")), Some(&sval::Index::from(1isize)))?; } E852::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize)))?; } E852::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E852").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E852(_: &E852) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E853 { A, #[sval(tag = "VARIANT", label = "all", index = 1)] B(i32), r#C(i32), D }
pub fn ref_E853<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E853, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E853").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E853::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E853::B(f0) => { stream.tagged_begin(Some(&VARIANT), Some(&sval::Label::new("all")), Some(&sval::Index::from(1isize)))?; stream.value(f0)?; stream.tagged_end(Some(&VARIANT), Some(&sval::Label::new("all")), Some(&sval::Index::from(1isize)))?; } E853::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E853::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E853").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E853(_: &E853) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E854 { A, #[sval(tag = "VARIANT", label = "all", index = 1)] B(i32, &'static str), r#C(i32), D }
pub fn ref_E854<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E854, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E854").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E854::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E854::B(f0, f1) => { stream.tuple_begin(Some(&VARIANT), Some(&sval::Label::new("all")), Some(&sval::Index::from(1isize)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(Some(&VARIANT), Some(&sval::Label::new("all")), Some(&sval::Index::from(1isize)))?; } E854::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize)))?; } E854::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E854").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E854(_: &E854) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E855 { A, #[sval(tag = "VARIANT", label = "all", index = 1)] B(i32, &'static str), r#C(i32), D }
pub fn ref_E855<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E855, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E855").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E855::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E855::B(f0, f1) => { stream.tuple_begin(Some(&VARIANT), Some(&sval::Label::new("all")), Some(&sval::Index::from(1isize)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(Some(&VARIANT), Some(&sval::Label::new("all")), Some(&sval::Index::from(1isize)))?; } E855::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E855::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E855").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E855(_: &E855) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E856 { A, #[sval(tag = "VARIANT", label = "all", index = 1)] B { first: i32, r#type: &'static str }, r#C(i32), D }
pub fn ref_E856<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E856, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E856").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E856::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E856::B { first: f0, r#type: f1 } => { stream.record_tuple_begin(Some(&VARIANT), Some(&sval::Label::new("all")), Some(&sval::Index::from(1isize)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(Some(&VARIANT), Some(&sval::Label::new("all")), Some(&sval::Index::from(1isize)))?; } E856::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize)))?; } E856::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E856").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E856(_: &E856) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(unindexed_variants)] pub enum E857 { A, #[sval(tag = "VARIANT", label = "all", index = 1)] B { first: i32, r#type: &'static str }, r#C(i32), D }
pub fn ref_E857<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E857, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E857").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E857::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E857::B { first: f0, r#type: f1 } => { stream.record_tuple_begin(Some(&VARIANT), Some(&sval::Label::new("all")), Some(&sval::Index::from(1isize)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(Some(&VARIANT), Some(&sval::Label::new("all")), Some(&sval::Index::from(1isize)))?; } E857::r#C(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), None)?; } E857::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), None)?; } }
    stream.enum_end(None, Some(&sval::Label::new("E857").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E857(_: &E857) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E858 { #[sval(tag = "VARIANT", label = "all", index = 1)] A, B, C { first: i32, r#type: &'static str } }
pub fn ref_E858<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E858, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E858").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E858::A => { stream.tag(Some(&VARIANT), Some(&sval::Label::new("all")), Some(&sval::Index::from(1isize)))?; } E858::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize)))?; } E858::C { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E858").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E858(_: &E858) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E859 { A = 3, B, C = -5, D }
pub fn ref_E859<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E859, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E859").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E859::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize)))?; } E859::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(4isize)))?; } E859::C => { stream.tag(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-5isize)))?; } E859::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(-4isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E859").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E859(_: &E859) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E860 { A, B = 6, #[sval(index = 2)] C = 9, D }
pub fn ref_E860<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E860, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E860").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E860::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E860::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(6isize)))?; } E860::C => { stream.tag(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize)))?; } E860::D => { stream.tag(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(3isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E860").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E860(_: &E860) -> Option<sval::Tag> { None }
#[derive(Value)]
#[repr(isize)]
pub enum E861 { A = 1, B(i32), C { first: i32, r#type: &'static str } = 8, D(i32, &'static str) }
pub fn ref_E861<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E861, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E861").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E861::A => { stream.tag(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize)))?; } E861::B(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(2isize)))?; } E861::C { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(8isize)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("C").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(8isize)))?; } E861::D(f0, f1) => { stream.tuple_begin(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(9isize)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("D").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(9isize)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E861").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E861(_: &E861) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E862 { A(i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>), B }
pub fn ref_E862<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E862, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E862").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E862::A(f0, f1, f2) => { stream.tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f2)?; stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E862::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E862").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E862(_: &E862) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E863 { #[sval(unlabeled_fields)] A(i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>), B }
pub fn ref_E863<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E863, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E863").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E863::A(f0, f1, f2) => { stream.tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f2)?; stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E863::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E863").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E863(_: &E863) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E864 { #[sval(unindexed_fields)] A(i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>), B }
pub fn ref_E864<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E864, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E864").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E864::A(f0, f1, f2) => { stream.tagged_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.seq_begin(Some(3))?; stream.seq_value_begin()?; stream.value(f0)?; stream.seq_value_end()?; stream.seq_value_begin()?; stream.value(f1)?; stream.seq_value_end()?; stream.seq_value_begin()?; stream.value(f2)?; stream.seq_value_end()?; stream.seq_end()?; stream.tagged_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E864::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E864").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E864(_: &E864) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E865 { #[sval(unlabeled_fields, unindexed_fields)] A(i32, #[sval(tag = "FIELD")] &'static str, Vec<u8>), B }
pub fn ref_E865<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E865, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E865").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E865::A(f0, f1, f2) => { stream.tagged_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.seq_begin(Some(3))?; stream.seq_value_begin()?; stream.value(f0)?; stream.seq_value_end()?; stream.seq_value_begin()?; stream.value(f1)?; stream.seq_value_end()?; stream.seq_value_begin()?; stream.value(f2)?; stream.seq_value_end()?; stream.seq_end()?; stream.tagged_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E865::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E865").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E865(_: &E865) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E866 { A(i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>), B }
pub fn ref_E866<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E866, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E866").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E866::A(f0, f1, f2) => { stream.tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f1)?; stream.tagged_end(Some(&DATA), None, None)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f2)?; stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E866::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E866").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E866(_: &E866) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E867 { #[sval(unlabeled_fields)] A(i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>), B }
pub fn ref_E867<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E867, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E867").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E867::A(f0, f1, f2) => { stream.tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f1)?; stream.tagged_end(Some(&DATA), None, None)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f2)?; stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E867::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E867").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E867(_: &E867) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E868 { #[sval(unindexed_fields)] A(i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>), B }
pub fn ref_E868<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E868, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E868").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E868::A(f0, f1, f2) => { stream.tagged_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.seq_begin(Some(3))?; stream.seq_value_begin()?; stream.value(f0)?; stream.seq_value_end()?; stream.seq_value_begin()?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f1)?; stream.tagged_end(Some(&DATA), None, None)?; stream.seq_value_end()?; stream.seq_value_begin()?; stream.value(f2)?; stream.seq_value_end()?; stream.seq_end()?; stream.tagged_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E868::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E868").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E868(_: &E868) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E869 { #[sval(unlabeled_fields, unindexed_fields)] A(i32, #[sval(data_tag = DATA)] &'static str, Vec<u8>), B }
pub fn ref_E869<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E869, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E869").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E869::A(f0, f1, f2) => { stream.tagged_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.seq_begin(Some(3))?; stream.seq_value_begin()?; stream.value(f0)?; stream.seq_value_end()?; stream.seq_value_begin()?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f1)?; stream.tagged_end(Some(&DATA), None, None)?; stream.seq_value_end()?; stream.seq_value_begin()?; stream.value(f2)?; stream.seq_value_end()?; stream.seq_end()?; stream.tagged_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E869::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E869").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E869(_: &E869) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E870 { A(i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>), B }
pub fn ref_E870<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E870, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E870").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E870::A(f0, f1, f2) => { stream.tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f1)?; stream.tagged_end(Some(&DATA), None, None)?; stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f2)?; stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E870::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E870").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E870(_: &E870) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E871 { #[sval(unlabeled_fields)] A(i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>), B }
pub fn ref_E871<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E871, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E871").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E871::A(f0, f1, f2) => { stream.tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f1)?; stream.tagged_end(Some(&DATA), None, None)?; stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f2)?; stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E871::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E871").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E871(_: &E871) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E872 { #[sval(unindexed_fields)] A(i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>), B }
pub fn ref_E872<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E872, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E872").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E872::A(f0, f1, f2) => { stream.tagged_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.seq_begin(Some(3))?; stream.seq_value_begin()?; stream.value(f0)?; stream.seq_value_end()?; stream.seq_value_begin()?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f1)?; stream.tagged_end(Some(&DATA), None, None)?; stream.seq_value_end()?; stream.seq_value_begin()?; stream.value(f2)?; stream.seq_value_end()?; stream.seq_end()?; stream.tagged_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E872::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E872").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E872(_: &E872) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E873 { #[sval(unlabeled_fields, unindexed_fields)] A(i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str, Vec<u8>), B }
pub fn ref_E873<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E873, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E873").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E873::A(f0, f1, f2) => { stream.tagged_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.seq_begin(Some(3))?; stream.seq_value_begin()?; stream.value(f0)?; stream.seq_value_end()?; stream.seq_value_begin()?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f1)?; stream.tagged_end(Some(&DATA), None, None)?; stream.seq_value_end()?; stream.seq_value_begin()?; stream.value(f2)?; stream.seq_value_end()?; stream.seq_end()?; stream.tagged_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E873::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E873").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E873(_: &E873) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E874 { A(i32, #[sval(skip)] &'static str, Vec<u8>), B }
pub fn ref_E874<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E874, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E874").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E874::A(f0, _f1, f2) => { stream.tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f2)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E874::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E874").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E874(_: &E874) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E875 { #[sval(unlabeled_fields)] A(i32, #[sval(skip)] &'static str, Vec<u8>), B }
pub fn ref_E875<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E875, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E875").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E875::A(f0, _f1, f2) => { stream.tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f2)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E875::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E875").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E875(_: &E875) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E876 { #[sval(unindexed_fields)] A(i32, #[sval(skip)] &'static str, Vec<u8>), B }
pub fn ref_E876<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E876, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E876").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E876::A(f0, _f1, f2) => { stream.tagged_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.seq_begin(Some(2))?; stream.seq_value_begin()?; stream.value(f0)?; stream.seq_value_end()?; stream.seq_value_begin()?; stream.value(f2)?; stream.seq_value_end()?; stream.seq_end()?; stream.tagged_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E876::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E876").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E876(_: &E876) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E877 { #[sval(unlabeled_fields, unindexed_fields)] A(i32, #[sval(skip)] &'static str, Vec<u8>), B }
pub fn ref_E877<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E877, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E877").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E877::A(f0, _f1, f2) => { stream.tagged_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.seq_begin(Some(2))?; stream.seq_value_begin()?; stream.value(f0)?; stream.seq_value_end()?; stream.seq_value_begin()?; stream.value(f2)?; stream.seq_value_end()?; stream.seq_end()?; stream.tagged_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E877::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E877").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E877(_: &E877) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E878 { A(i32, #[sval(flatten)] Vec<i32>, Vec<u8>), B }
pub fn ref_E878<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E878, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E878").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E878::A(f0, f1, f2) => { stream.tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), None)?; let mut at: isize = 0; stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?; at += 1; at = sval_flatten::flatten_to_tuple(&mut *stream, f1, at)?; stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f2)?; stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?; at += 1; stream.tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E878::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E878").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E878(_: &E878) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E879 { #[sval(unlabeled_fields)] A(i32, #[sval(flatten)] Vec<i32>, Vec<u8>), B }
pub fn ref_E879<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E879, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E879").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E879::A(f0, f1, f2) => { stream.tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), None)?; let mut at: isize = 0; stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?; at += 1; at = sval_flatten::flatten_to_tuple(&mut *stream, f1, at)?; stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f2)?; stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?; at += 1; stream.tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E879::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E879").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E879(_: &E879) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E880 { #[sval(unindexed_fields)] A(i32, #[sval(flatten)] Vec<i32>, Vec<u8>), B }
pub fn ref_E880<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E880, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E880").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E880::A(f0, f1, f2) => { stream.tagged_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.seq_begin(None)?; stream.seq_value_begin()?; stream.value(f0)?; stream.seq_value_end()?; sval_flatten::flatten_to_seq(&mut *stream, f1)?; stream.seq_value_begin()?; stream.value(f2)?; stream.seq_value_end()?; stream.seq_end()?; stream.tagged_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E880::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E880").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E880(_: &E880) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E881 { #[sval(unlabeled_fields, unindexed_fields)] A(i32, #[sval(flatten)] Vec<i32>, Vec<u8>), B }
pub fn ref_E881<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E881, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E881").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E881::A(f0, f1, f2) => { stream.tagged_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.seq_begin(None)?; stream.seq_value_begin()?; stream.value(f0)?; stream.seq_value_end()?; sval_flatten::flatten_to_seq(&mut *stream, f1)?; stream.seq_value_begin()?; stream.value(f2)?; stream.seq_value_end()?; stream.seq_end()?; stream.tagged_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E881::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E881").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E881(_: &E881) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E882 { A(i32, #[sval(index = 5)] &'static str, Vec<u8>), B }
pub fn ref_E882<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E882, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E882").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E882::A(f0, f1, f2) => { stream.tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(5isize))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(5isize))?; stream.tuple_value_begin(None, &sval::Index::from(6isize))?; stream.value(f2)?; stream.tuple_value_end(None, &sval::Index::from(6isize))?; stream.tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E882::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E882").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E882(_: &E882) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E883 { #[sval(unlabeled_fields)] A(i32, #[sval(index = 5)] &'static str, Vec<u8>), B }
pub fn ref_E883<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E883, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E883").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E883::A(f0, f1, f2) => { stream.tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(5isize))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(5isize))?; stream.tuple_value_begin(None, &sval::Index::from(6isize))?; stream.value(f2)?; stream.tuple_value_end(None, &sval::Index::from(6isize))?; stream.tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E883::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E883").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E883(_: &E883) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E884 { A(i32, #[sval(index = -1)] &'static str, Vec<u8>), B }
pub fn ref_E884<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E884, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E884").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E884::A(f0, f1, f2) => { stream.tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(-1isize))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(-1isize))?; stream.tuple_value_begin(None, &sval::Index::from(0isize))?; stream.value(f2)?; stream.tuple_value_end(None, &sval::Index::from(0isize))?; stream.tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E884::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E884").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E884(_: &E884) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E885 { #[sval(unlabeled_fields)] A(i32, #[sval(index = -1)] &'static str, Vec<u8>), B }
pub fn ref_E885<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E885, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E885").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E885::A(f0, f1, f2) => { stream.tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(-1isize))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(-1isize))?; stream.tuple_value_begin(None, &sval::Index::from(0isize))?; stream.value(f2)?; stream.tuple_value_end(None, &sval::Index::from(0isize))?; stream.tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E885::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E885").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E885(_: &E885) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E886 { A(i32, #[sval(index = AN_INDEX)] &'static str, Vec<u8>), B }
pub fn ref_E886<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E886, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E886").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E886::A(f0, f1, f2) => { stream.tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?; stream.tuple_value_begin(None, &sval::Index::from(2isize))?; stream.value(f2)?; stream.tuple_value_end(None, &sval::Index::from(2isize))?; stream.tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E886::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E886").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E886(_: &E886) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E887 { #[sval(unlabeled_fields)] A(i32, #[sval(index = AN_INDEX)] &'static str, Vec<u8>), B }
pub fn ref_E887<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E887, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E887").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E887::A(f0, f1, f2) => { stream.tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?; stream.tuple_value_begin(None, &sval::Index::from(2isize))?; stream.value(f2)?; stream.tuple_value_end(None, &sval::Index::from(2isize))?; stream.tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E887::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E887").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E887(_: &E887) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(dynamic)] pub enum E888 { A(#[sval(tag = "FIELD")] i32, #[sval(data_tag = DATA)] &'static str), B(i32) }
pub fn ref_E888<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E888, stream: &mut St) -> sval::Result {
    match this { E888::A(f0, f1) => { stream.tuple_begin(None, None, None, Some(2))?; stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f1)?; stream.tagged_end(Some(&DATA), None, None)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, None, None)?; } E888::B(f0) => { stream.value(f0)?; } }
    Ok(())
}
#[derive(Value)]
#[sval(dynamic)] pub enum E889 { A(#[sval(tag = "FIELD")] i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str), B(i32) }
pub fn ref_E889<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E889, stream: &mut St) -> sval::Result {
    match this { E889::A(f0, f1) => { stream.tuple_begin(None, None, None, Some(2))?; stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f1)?; stream.tagged_end(Some(&DATA), None, None)?; stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, None, None)?; } E889::B(f0) => { stream.value(f0)?; } }
    Ok(())
}
#[derive(Value)]
#[sval(dynamic)] pub enum E890 { A(#[sval(tag = "FIELD")] i32, #[sval(skip)] &'static str), B(i32) }
pub fn ref_E890<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E890, stream: &mut St) -> sval::Result {
    match this { E890::A(f0, _f1) => { stream.tuple_begin(None, None, None, Some(1))?; stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(Some(&FIELD), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, None, None)?; } E890::B(f0) => { stream.value(f0)?; } }
    Ok(())
}
#[derive(Value)]
#[sval(dynamic)] pub enum E891 { A(#[sval(tag = "FIELD")] i32, #[sval(flatten)] Vec<i32>), B(i32) }
pub fn ref_E891<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E891, stream: &mut St) -> sval::Result {
    match this { E891::A(f0, f1) => { stream.tuple_begin(None, None, None, None)?; let mut at: isize = 0; stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(Some(&FIELD), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?; at += 1; at = sval_flatten::flatten_to_tuple(&mut *stream, f1, at)?; stream.tuple_end(None, None, None)?; } E891::B(f0) => { stream.value(f0)?; } }
    Ok(())
}
#[derive(Value)]
#[sval(dynamic)] pub enum E892 { A(#[sval(data_tag = DATA)] i32, #[sval(tag = FIELD2, data_tag = DATA)] &'static str), B(i32) }
pub fn ref_E892<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E892, stream: &mut St) -> sval::Result {
    match this { E892::A(f0, f1) => { stream.tuple_begin(None, None, None, Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f0)?; stream.tagged_end(Some(&DATA), None, None)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f1)?; stream.tagged_end(Some(&DATA), None, None)?; stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, None, None)?; } E892::B(f0) => { stream.value(f0)?; } }
    Ok(())
}
#[derive(Value)]
#[sval(dynamic)] pub enum E893 { A(#[sval(data_tag = DATA)] i32, #[sval(skip)] &'static str), B(i32) }
pub fn ref_E893<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E893, stream: &mut St) -> sval::Result {
    match this { E893::A(f0, _f1) => { stream.tuple_begin(None, None, None, Some(1))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f0)?; stream.tagged_end(Some(&DATA), None, None)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, None, None)?; } E893::B(f0) => { stream.value(f0)?; } }
    Ok(())
}
#[derive(Value)]
#[sval(dynamic)] pub enum E894 { A(#[sval(data_tag = DATA)] i32, #[sval(flatten)] Vec<i32>), B(i32) }
pub fn ref_E894<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E894, stream: &mut St) -> sval::Result {
    match this { E894::A(f0, f1) => { stream.tuple_begin(None, None, None, None)?; let mut at: isize = 0; stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f0)?; stream.tagged_end(Some(&DATA), None, None)?; stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?; at += 1; at = sval_flatten::flatten_to_tuple(&mut *stream, f1, at)?; stream.tuple_end(None, None, None)?; } E894::B(f0) => { stream.value(f0)?; } }
    Ok(())
}
#[derive(Value)]
#[sval(dynamic)] pub enum E895 { A(#[sval(tag = FIELD2, data_tag = DATA)] i32, #[sval(skip)] &'static str), B(i32) }
pub fn ref_E895<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E895, stream: &mut St) -> sval::Result {
    match this { E895::A(f0, _f1) => { stream.tuple_begin(None, None, None, Some(1))?; stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f0)?; stream.tagged_end(Some(&DATA), None, None)?; stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, None, None)?; } E895::B(f0) => { stream.value(f0)?; } }
    Ok(())
}
#[derive(Value)]
#[sval(dynamic)] pub enum E896 { A(#[sval(tag = FIELD2, data_tag = DATA)] i32, #[sval(flatten)] Vec<i32>), B(i32) }
pub fn ref_E896<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E896, stream: &mut St) -> sval::Result {
    match this { E896::A(f0, f1) => { stream.tuple_begin(None, None, None, None)?; let mut at: isize = 0; stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f0)?; stream.tagged_end(Some(&DATA), None, None)?; stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?; at += 1; at = sval_flatten::flatten_to_tuple(&mut *stream, f1, at)?; stream.tuple_end(None, None, None)?; } E896::B(f0) => { stream.value(f0)?; } }
    Ok(())
}
#[derive(Value)]
#[sval(dynamic)] pub enum E897 { A(#[sval(skip)] i32, #[sval(flatten)] Vec<i32>), B(i32) }
pub fn ref_E897<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E897, stream: &mut St) -> sval::Result {
    match this { E897::A(_f0, f1) => { stream.tuple_begin(None, None, None, None)?; let mut at: isize = 0; at = sval_flatten::flatten_to_tuple(&mut *stream, f1, at)?; stream.tuple_end(None, None, None)?; } E897::B(f0) => { stream.value(f0)?; } }
    Ok(())
}
#[derive(Value)]
pub enum E898 { A { first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }, B }
pub fn ref_E898<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E898, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E898").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E898::A { first: f0, r#type: f1, stream: f2 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f2)?; stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E898::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E898").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E898(_: &E898) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E899 { #[sval(unlabeled_fields)] A { first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }, B }
pub fn ref_E899<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E899, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E899").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E899::A { first: f0, r#type: f1, stream: f2 } => { stream.tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.tuple_value_end(Some(&FIELD), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f2)?; stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E899::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E899").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E899(_: &E899) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E900 { #[sval(unindexed_fields)] A { first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }, B }
pub fn ref_E900<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E900, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E900").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E900::A { first: f0, r#type: f1, stream: f2 } => { stream.record_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?; stream.value(f0)?; stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?; stream.record_value_begin(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?; stream.value(f1)?; stream.record_value_end(Some(&FIELD), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?; stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?; stream.value(f2)?; stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?; stream.record_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E900::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E900").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E900(_: &E900) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E901 { #[sval(unlabeled_fields, unindexed_fields)] A { first: i32, #[sval(tag = "FIELD")] r#type: &'static str, stream: Vec<u8> }, B }
pub fn ref_E901<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E901, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E901").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E901::A { first: f0, r#type: f1, stream: f2 } => { stream.tagged_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.seq_begin(Some(3))?; stream.seq_value_begin()?; stream.value(f0)?; stream.seq_value_end()?; stream.seq_value_begin()?; stream.value(f1)?; stream.seq_value_end()?; stream.seq_value_begin()?; stream.value(f2)?; stream.seq_value_end()?; stream.seq_end()?; stream.tagged_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E901::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E901").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E901(_: &E901) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E902 { A { first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }, B }
pub fn ref_E902<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E902, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E902").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E902::A { first: f0, r#type: f1, stream: f2 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f1)?; stream.tagged_end(Some(&DATA), None, None)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f2)?; stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E902::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E902").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E902(_: &E902) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E903 { #[sval(unlabeled_fields)] A { first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }, B }
pub fn ref_E903<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E903, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E903").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E903::A { first: f0, r#type: f1, stream: f2 } => { stream.tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f1)?; stream.tagged_end(Some(&DATA), None, None)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f2)?; stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E903::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E903").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E903(_: &E903) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E904 { #[sval(unindexed_fields)] A { first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }, B }
pub fn ref_E904<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E904, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E904").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E904::A { first: f0, r#type: f1, stream: f2 } => { stream.record_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?; stream.value(f0)?; stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?; stream.record_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f1)?; stream.tagged_end(Some(&DATA), None, None)?; stream.record_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?; stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?; stream.value(f2)?; stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?; stream.record_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E904::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E904").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E904(_: &E904) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E905 { #[sval(unlabeled_fields, unindexed_fields)] A { first: i32, #[sval(data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }, B }
pub fn ref_E905<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E905, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E905").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E905::A { first: f0, r#type: f1, stream: f2 } => { stream.tagged_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.seq_begin(Some(3))?; stream.seq_value_begin()?; stream.value(f0)?; stream.seq_value_end()?; stream.seq_value_begin()?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f1)?; stream.tagged_end(Some(&DATA), None, None)?; stream.seq_value_end()?; stream.seq_value_begin()?; stream.value(f2)?; stream.seq_value_end()?; stream.seq_end()?; stream.tagged_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E905::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E905").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E905(_: &E905) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E906 { A { first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }, B }
pub fn ref_E906<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E906, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E906").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E906::A { first: f0, r#type: f1, stream: f2 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f1)?; stream.tagged_end(Some(&DATA), None, None)?; stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f2)?; stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E906::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E906").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E906(_: &E906) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E907 { #[sval(unlabeled_fields)] A { first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }, B }
pub fn ref_E907<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E907, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E907").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E907::A { first: f0, r#type: f1, stream: f2 } => { stream.tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f1)?; stream.tagged_end(Some(&DATA), None, None)?; stream.tuple_value_end(Some(&FIELD2), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f2)?; stream.tuple_value_end(None, &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E907::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E907").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E907(_: &E907) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E908 { #[sval(unindexed_fields)] A { first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }, B }
pub fn ref_E908<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E908, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E908").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E908::A { first: f0, r#type: f1, stream: f2 } => { stream.record_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?; stream.value(f0)?; stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?; stream.record_value_begin(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f1)?; stream.tagged_end(Some(&DATA), None, None)?; stream.record_value_end(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT))?; stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?; stream.value(f2)?; stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?; stream.record_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E908::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E908").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E908(_: &E908) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E909 { #[sval(unlabeled_fields, unindexed_fields)] A { first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str, stream: Vec<u8> }, B }
pub fn ref_E909<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E909, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E909").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E909::A { first: f0, r#type: f1, stream: f2 } => { stream.tagged_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.seq_begin(Some(3))?; stream.seq_value_begin()?; stream.value(f0)?; stream.seq_value_end()?; stream.seq_value_begin()?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f1)?; stream.tagged_end(Some(&DATA), None, None)?; stream.seq_value_end()?; stream.seq_value_begin()?; stream.value(f2)?; stream.seq_value_end()?; stream.seq_end()?; stream.tagged_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E909::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E909").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E909(_: &E909) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E910 { A { first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }, B }
pub fn ref_E910<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E910, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E910").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E910::A { first: f0, r#type: _f1, stream: f2 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f2)?; stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E910::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E910").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E910(_: &E910) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E911 { #[sval(unlabeled_fields)] A { first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }, B }
pub fn ref_E911<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E911, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E911").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E911::A { first: f0, r#type: _f1, stream: f2 } => { stream.tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f2)?; stream.tuple_value_end(None, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E911::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E911").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E911(_: &E911) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E912 { #[sval(unindexed_fields)] A { first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }, B }
pub fn ref_E912<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E912, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E912").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E912::A { first: f0, r#type: _f1, stream: f2 } => { stream.record_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?; stream.value(f0)?; stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?; stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?; stream.value(f2)?; stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?; stream.record_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E912::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E912").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E912(_: &E912) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E913 { #[sval(unlabeled_fields, unindexed_fields)] A { first: i32, #[sval(skip)] r#type: &'static str, stream: Vec<u8> }, B }
pub fn ref_E913<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E913, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E913").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E913::A { first: f0, r#type: _f1, stream: f2 } => { stream.tagged_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.seq_begin(Some(2))?; stream.seq_value_begin()?; stream.value(f0)?; stream.seq_value_end()?; stream.seq_value_begin()?; stream.value(f2)?; stream.seq_value_end()?; stream.seq_end()?; stream.tagged_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E913::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E913").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E913(_: &E913) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E914 { A { first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }, B }
pub fn ref_E914<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E914, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E914").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E914::A { first: f0, r#type: f1, stream: f2 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), None)?; let mut at: isize = 0; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?; at += 1; at = sval_flatten::flatten_to_record_tuple(&mut *stream, f1, at)?; stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f2)?; stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?; at += 1; stream.record_tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E914::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E914").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E914(_: &E914) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E915 { #[sval(unlabeled_fields)] A { first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }, B }
pub fn ref_E915<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E915, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E915").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E915::A { first: f0, r#type: f1, stream: f2 } => { stream.tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), None)?; let mut at: isize = 0; stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?; at += 1; at = sval_flatten::flatten_to_tuple(&mut *stream, f1, at)?; stream.tuple_value_begin(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f2)?; stream.tuple_value_end(None, &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?; at += 1; stream.tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E915::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E915").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E915(_: &E915) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E916 { #[sval(unindexed_fields)] A { first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }, B }
pub fn ref_E916<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E916, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E916").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E916::A { first: f0, r#type: f1, stream: f2 } => { stream.record_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), None)?; let mut at: isize = 0; stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?; stream.value(f0)?; stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?; at = sval_flatten::flatten_to_record(&mut *stream, f1, at)?; stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?; stream.value(f2)?; stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?; stream.record_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E916::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E916").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E916(_: &E916) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E917 { #[sval(unlabeled_fields, unindexed_fields)] A { first: i32, #[sval(flatten)] r#type: Vec<i32>, stream: Vec<u8> }, B }
pub fn ref_E917<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E917, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E917").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E917::A { first: f0, r#type: f1, stream: f2 } => { stream.tagged_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.seq_begin(None)?; stream.seq_value_begin()?; stream.value(f0)?; stream.seq_value_end()?; sval_flatten::flatten_to_seq(&mut *stream, f1)?; stream.seq_value_begin()?; stream.value(f2)?; stream.seq_value_end()?; stream.seq_end()?; stream.tagged_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E917::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E917").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E917(_: &E917) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E918 { A { first: i32, #[sval(label = "other name")] r#type: &'static str, stream: Vec<u8> }, B }
pub fn ref_E918<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E918, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E918").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E918::A { first: f0, r#type: f1, stream: f2 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("other name"), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("other name"), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f2)?; stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E918::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E918").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E918(_: &E918) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E919 { #[sval(unindexed_fields)] A { first: i32, #[sval(label = "other name")] r#type: &'static str, stream: Vec<u8> }, B }
pub fn ref_E919<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E919, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E919").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E919::A { first: f0, r#type: f1, stream: f2 } => { stream.record_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?; stream.value(f0)?; stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?; stream.record_value_begin(None, &sval::Label::new("other name"))?; stream.value(f1)?; stream.record_value_end(None, &sval::Label::new("other name"))?; stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?; stream.value(f2)?; stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?; stream.record_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E919::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E919").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E919(_: &E919) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E920 { A { first: i32, #[sval(label = A_LABEL)] r#type: &'static str, stream: Vec<u8> }, B }
pub fn ref_E920<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E920, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E920").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E920::A { first: f0, r#type: f1, stream: f2 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &A_LABEL, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &A_LABEL, &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f2)?; stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E920::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E920").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E920(_: &E920) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E921 { #[sval(unindexed_fields)] A { first: i32, #[sval(label = A_LABEL)] r#type: &'static str, stream: Vec<u8> }, B }
pub fn ref_E921<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E921, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E921").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E921::A { first: f0, r#type: f1, stream: f2 } => { stream.record_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?; stream.value(f0)?; stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?; stream.record_value_begin(None, &A_LABEL)?; stream.value(f1)?; stream.record_value_end(None, &A_LABEL)?; stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?; stream.value(f2)?; stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?; stream.record_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E921::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E921").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E921(_: &E921) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E922 { A { first: i32, #[sval(label = "")] r#type: &'static str, stream: Vec<u8> }, B }
pub fn ref_E922<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E922, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E922").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E922::A { first: f0, r#type: f1, stream: f2 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new(""), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new(""), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f2)?; stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E922::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E922").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E922(_: &E922) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E923 { #[sval(unindexed_fields)] A { first: i32, #[sval(label = "")] r#type: &'static str, stream: Vec<u8> }, B }
pub fn ref_E923<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E923, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E923").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E923::A { first: f0, r#type: f1, stream: f2 } => { stream.record_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.record_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?; stream.value(f0)?; stream.record_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT))?; stream.record_value_begin(None, &sval::Label::new(""))?; stream.value(f1)?; stream.record_value_end(None, &sval::Label::new(""))?; stream.record_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?; stream.value(f2)?; stream.record_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT))?; stream.record_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E923::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E923").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E923(_: &E923) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E924 { A { first: i32, #[sval(index = 5)] r#type: &'static str, stream: Vec<u8> }, B }
pub fn ref_E924<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E924, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E924").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E924::A { first: f0, r#type: f1, stream: f2 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(5isize))?; stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?; stream.value(f2)?; stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(6isize))?; stream.record_tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E924::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E924").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E924(_: &E924) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E925 { #[sval(unlabeled_fields)] A { first: i32, #[sval(index = 5)] r#type: &'static str, stream: Vec<u8> }, B }
pub fn ref_E925<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E925, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E925").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E925::A { first: f0, r#type: f1, stream: f2 } => { stream.tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(5isize))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(5isize))?; stream.tuple_value_begin(None, &sval::Index::from(6isize))?; stream.value(f2)?; stream.tuple_value_end(None, &sval::Index::from(6isize))?; stream.tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E925::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E925").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E925(_: &E925) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E926 { A { first: i32, #[sval(index = -1)] r#type: &'static str, stream: Vec<u8> }, B }
pub fn ref_E926<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E926, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E926").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E926::A { first: f0, r#type: f1, stream: f2 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(-1isize))?; stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?; stream.value(f2)?; stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize))?; stream.record_tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E926::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E926").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E926(_: &E926) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E927 { #[sval(unlabeled_fields)] A { first: i32, #[sval(index = -1)] r#type: &'static str, stream: Vec<u8> }, B }
pub fn ref_E927<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E927, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E927").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E927::A { first: f0, r#type: f1, stream: f2 } => { stream.tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(-1isize))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(-1isize))?; stream.tuple_value_begin(None, &sval::Index::from(0isize))?; stream.value(f2)?; stream.tuple_value_end(None, &sval::Index::from(0isize))?; stream.tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E927::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E927").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E927(_: &E927) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E928 { A { first: i32, #[sval(index = AN_INDEX)] r#type: &'static str, stream: Vec<u8> }, B }
pub fn ref_E928<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E928, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E928").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E928::A { first: f0, r#type: f1, stream: f2 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?; stream.value(f1)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(AN_INDEX))?; stream.record_tuple_value_begin(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?; stream.value(f2)?; stream.record_tuple_value_end(None, &sval::Label::new("stream").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(2isize))?; stream.record_tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E928::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E928").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E928(_: &E928) -> Option<sval::Tag> { None }
#[derive(Value)]
pub enum E929 { #[sval(unlabeled_fields)] A { first: i32, #[sval(index = AN_INDEX)] r#type: &'static str, stream: Vec<u8> }, B }
pub fn ref_E929<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E929, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E929").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E929::A { first: f0, r#type: f1, stream: f2 } => { stream.tuple_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(3))?; stream.tuple_value_begin(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.tuple_value_end(None, &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tuple_value_begin(None, &sval::Index::from(AN_INDEX))?; stream.value(f1)?; stream.tuple_value_end(None, &sval::Index::from(AN_INDEX))?; stream.tuple_value_begin(None, &sval::Index::from(2isize))?; stream.value(f2)?; stream.tuple_value_end(None, &sval::Index::from(2isize))?; stream.tuple_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E929::B => { stream.tag(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E929").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E929(_: &E929) -> Option<sval::Tag> { None }
#[derive(Value)]
#[sval(dynamic)] pub enum E930 { A { #[sval(tag = "FIELD")] first: i32, #[sval(data_tag = DATA)] r#type: &'static str }, B(i32) }
pub fn ref_E930<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E930, stream: &mut St) -> sval::Result {
    match this { E930::A { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, None, None, Some(2))?; stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f1)?; stream.tagged_end(Some(&DATA), None, None)?; stream.record_tuple_value_end(None, &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, None, None)?; } E930::B(f0) => { stream.value(f0)?; } }
    Ok(())
}
#[derive(Value)]
#[sval(dynamic)] pub enum E931 { A { #[sval(tag = "FIELD")] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str }, B(i32) }
pub fn ref_E931<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E931, stream: &mut St) -> sval::Result {
    match this { E931::A { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, None, None, Some(2))?; stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f1)?; stream.tagged_end(Some(&DATA), None, None)?; stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, None, None)?; } E931::B(f0) => { stream.value(f0)?; } }
    Ok(())
}
#[derive(Value)]
#[sval(dynamic)] pub enum E932 { A { #[sval(tag = "FIELD")] first: i32, #[sval(skip)] r#type: &'static str }, B(i32) }
pub fn ref_E932<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E932, stream: &mut St) -> sval::Result {
    match this { E932::A { first: f0, r#type: _f1 } => { stream.record_tuple_begin(None, None, None, Some(1))?; stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, None, None)?; } E932::B(f0) => { stream.value(f0)?; } }
    Ok(())
}
#[derive(Value)]
#[sval(dynamic)] pub enum E933 { A { #[sval(tag = "FIELD")] first: i32, #[sval(flatten)] r#type: Vec<i32> }, B(i32) }
pub fn ref_E933<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E933, stream: &mut St) -> sval::Result {
    match this { E933::A { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, None, None, None)?; let mut at: isize = 0; stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?; at += 1; at = sval_flatten::flatten_to_record_tuple(&mut *stream, f1, at)?; stream.record_tuple_end(None, None, None)?; } E933::B(f0) => { stream.value(f0)?; } }
    Ok(())
}
#[derive(Value)]
#[sval(dynamic)] pub enum E934 { A { #[sval(data_tag = DATA)] first: i32, #[sval(tag = FIELD2, data_tag = DATA)] r#type: &'static str }, B(i32) }
pub fn ref_E934<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E934, stream: &mut St) -> sval::Result {
    match this { E934::A { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, None, None, Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f0)?; stream.tagged_end(Some(&DATA), None, None)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f1)?; stream.tagged_end(Some(&DATA), None, None)?; stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("type").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, None, None)?; } E934::B(f0) => { stream.value(f0)?; } }
    Ok(())
}
#[derive(Value)]
#[sval(dynamic)] pub enum E935 { A { #[sval(data_tag = DATA)] first: i32, #[sval(skip)] r#type: &'static str }, B(i32) }
pub fn ref_E935<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E935, stream: &mut St) -> sval::Result {
    match this { E935::A { first: f0, r#type: _f1 } => { stream.record_tuple_begin(None, None, None, Some(1))?; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f0)?; stream.tagged_end(Some(&DATA), None, None)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, None, None)?; } E935::B(f0) => { stream.value(f0)?; } }
    Ok(())
}
#[derive(Value)]
#[sval(dynamic)] pub enum E936 { A { #[sval(data_tag = DATA)] first: i32, #[sval(flatten)] r#type: Vec<i32> }, B(i32) }
pub fn ref_E936<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E936, stream: &mut St) -> sval::Result {
    match this { E936::A { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, None, None, None)?; let mut at: isize = 0; stream.record_tuple_value_begin(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f0)?; stream.tagged_end(Some(&DATA), None, None)?; stream.record_tuple_value_end(None, &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?; at += 1; at = sval_flatten::flatten_to_record_tuple(&mut *stream, f1, at)?; stream.record_tuple_end(None, None, None)?; } E936::B(f0) => { stream.value(f0)?; } }
    Ok(())
}
#[derive(Value)]
#[sval(dynamic)] pub enum E937 { A { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(skip)] r#type: &'static str }, B(i32) }
pub fn ref_E937<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E937, stream: &mut St) -> sval::Result {
    match this { E937::A { first: f0, r#type: _f1 } => { stream.record_tuple_begin(None, None, None, Some(1))?; stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f0)?; stream.tagged_end(Some(&DATA), None, None)?; stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, None, None)?; } E937::B(f0) => { stream.value(f0)?; } }
    Ok(())
}
#[derive(Value)]
#[sval(dynamic)] pub enum E938 { A { #[sval(tag = FIELD2, data_tag = DATA)] first: i32, #[sval(flatten)] r#type: Vec<i32> }, B(i32) }
pub fn ref_E938<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E938, stream: &mut St) -> sval::Result {
    match this { E938::A { first: f0, r#type: f1 } => { stream.record_tuple_begin(None, None, None, None)?; let mut at: isize = 0; stream.record_tuple_value_begin(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?; stream.tagged_begin(Some(&DATA), None, None)?; stream.value(f0)?; stream.tagged_end(Some(&DATA), None, None)?; stream.record_tuple_value_end(Some(&FIELD2), &sval::Label::new("first").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(at).with_tag(&sval::tags::VALUE_OFFSET))?; at += 1; at = sval_flatten::flatten_to_record_tuple(&mut *stream, f1, at)?; stream.record_tuple_end(None, None, None)?; } E938::B(f0) => { stream.value(f0)?; } }
    Ok(())
}
#[derive(Value)]
#[sval(dynamic)] pub enum E939 { A { #[sval(skip)] first: i32, #[sval(flatten)] r#type: Vec<i32> }, B(i32) }
pub fn ref_E939<'sval, St: sval::Stream<'sval> + ?Sized>(this: &'sval E939, stream: &mut St) -> sval::Result {
    match this { E939::A { first: _f0, r#type: f1 } => { stream.record_tuple_begin(None, None, None, None)?; let mut at: isize = 0; at = sval_flatten::flatten_to_record_tuple(&mut *stream, f1, at)?; stream.record_tuple_end(None, None, None)?; } E939::B(f0) => { stream.value(f0)?; } }
    Ok(())
}
#[derive(Value)]
pub enum E940<'a, T, U> { A(T), B { x: U, #[sval(tag = "FIELD")] y: &'a str } }
pub fn ref_E940<'sval, 'a, T: sval::Value, U: sval::Value, St: sval::Stream<'sval> + ?Sized>(this: &'sval E940<'a, T, U>, stream: &mut St) -> sval::Result {
    stream.enum_begin(None, Some(&sval::Label::new("E940").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    match this { E940::A(f0) => { stream.tagged_begin(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; stream.value(f0)?; stream.tagged_end(None, Some(&sval::Label::new("A").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } E940::B { x: f0, y: f1 } => { stream.record_tuple_begin(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)), Some(2))?; stream.record_tuple_value_begin(None, &sval::Label::new("x").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f0)?; stream.record_tuple_value_end(None, &sval::Label::new("x").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(0isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_value_begin(Some(&FIELD), &sval::Label::new("y").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.value(f1)?; stream.record_tuple_value_end(Some(&FIELD), &sval::Label::new("y").with_tag(&sval::tags::VALUE_IDENT), &sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET))?; stream.record_tuple_end(None, Some(&sval::Label::new("B").with_tag(&sval::tags::VALUE_IDENT)), Some(&sval::Index::from(1isize).with_tag(&sval::tags::VALUE_OFFSET)))?; } }
    stream.enum_end(None, Some(&sval::Label::new("E940").with_tag(&sval::tags::VALUE_IDENT)), None)?;
    Ok(())
}
pub fn tag_E940<'a, T: sval::Value, U: sval::Value>(_: &E940<'a, T, U>) -> Option<sval::Tag> { None }
