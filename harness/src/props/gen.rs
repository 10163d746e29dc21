// Generated by tools/genrs.py from the tables in /verif/tables.
#![allow(unused_variables, dead_code, clippy::all)]

use super::special::{self, date, text};
use crate::tree::{Src, V};
use pdf_writer::*;
use pdf_writer::types::*; use pdf_writer::writers::*;

pub type Entries = Vec<(Vec<u8>, V)>;

pub const N_ACTION_TYPE: u8 = 9;
pub fn en_action_type<'a>(s: &mut Src, b: &'a [u8]) -> (ActionType, V) {
    match s.next() % 9 {
        0 => (ActionType::GoTo, V::Name(b"GoTo".to_vec())),
        1 => (ActionType::RemoteGoTo, V::Name(b"GoToR".to_vec())),
        2 => (ActionType::Launch, V::Name(b"Launch".to_vec())),
        3 => (ActionType::Uri, V::Name(b"URI".to_vec())),
        4 => (ActionType::SubmitForm, V::Name(b"SubmitForm".to_vec())),
        5 => (ActionType::ResetForm, V::Name(b"ResetForm".to_vec())),
        6 => (ActionType::ImportData, V::Name(b"ImportData".to_vec())),
        7 => (ActionType::JavaScript, V::Name(b"JavaScript".to_vec())),
        _ => (ActionType::Rendition, V::Name(b"Rendition".to_vec())),
    }
}
pub const N_ANNOTATION_TYPE: u8 = 12;
pub fn en_annotation_type<'a>(s: &mut Src, b: &'a [u8]) -> (AnnotationType, V) {
    match s.next() % 12 {
        0 => (AnnotationType::Text, V::Name(b"Text".to_vec())),
        1 => (AnnotationType::Link, V::Name(b"Link".to_vec())),
        2 => (AnnotationType::Line, V::Name(b"Line".to_vec())),
        3 => (AnnotationType::Square, V::Name(b"Square".to_vec())),
        4 => (AnnotationType::Circle, V::Name(b"Circle".to_vec())),
        5 => (AnnotationType::Highlight, V::Name(b"Highlight".to_vec())),
        6 => (AnnotationType::Underline, V::Name(b"Underline".to_vec())),
        7 => (AnnotationType::Squiggly, V::Name(b"Squiggly".to_vec())),
        8 => (AnnotationType::StrikeOut, V::Name(b"StrikeOut".to_vec())),
        9 => (AnnotationType::FileAttachment, V::Name(b"FileAttachment".to_vec())),
        10 => (AnnotationType::Widget, V::Name(b"Widget".to_vec())),
        _ => (AnnotationType::Screen, V::Name(b"Screen".to_vec())),
    }
}
pub const N_ANNOTATION_ICON: u8 = 12;
pub fn en_annotation_icon<'a>(s: &mut Src, b: &'a [u8]) -> (AnnotationIcon<'a>, V) {
    match s.next() % 12 {
        0 => (AnnotationIcon::Comment, V::Name(b"Comment".to_vec())),
        1 => (AnnotationIcon::Key, V::Name(b"Key".to_vec())),
        2 => (AnnotationIcon::Note, V::Name(b"Note".to_vec())),
        3 => (AnnotationIcon::Help, V::Name(b"Help".to_vec())),
        4 => (AnnotationIcon::NewParagraph, V::Name(b"NewParagraph".to_vec())),
        5 => (AnnotationIcon::Paragraph, V::Name(b"Paragraph".to_vec())),
        6 => (AnnotationIcon::Insert, V::Name(b"Insert".to_vec())),
        7 => (AnnotationIcon::Graph, V::Name(b"Graph".to_vec())),
        8 => (AnnotationIcon::PushPin, V::Name(b"PushPin".to_vec())),
        9 => (AnnotationIcon::Paperclip, V::Name(b"Paperclip".to_vec())),
        10 => (AnnotationIcon::Tag, V::Name(b"Tag".to_vec())),
        _ => (AnnotationIcon::Custom(Name(b)), V::Name(b.to_vec())),
    }
}
pub const N_ICON_SCALE: u8 = 4;
pub fn en_icon_scale<'a>(s: &mut Src, b: &'a [u8]) -> (IconScale, V) {
    match s.next() % 4 {
        0 => (IconScale::Always, V::Name(b"A".to_vec())),
        1 => (IconScale::Bigger, V::Name(b"B".to_vec())),
        2 => (IconScale::Smaller, V::Name(b"S".to_vec())),
        _ => (IconScale::Never, V::Name(b"N".to_vec())),
    }
}
pub const N_ICON_SCALE_TYPE: u8 = 2;
pub fn en_icon_scale_type<'a>(s: &mut Src, b: &'a [u8]) -> (IconScaleType, V) {
    match s.next() % 2 {
        0 => (IconScaleType::Anamorphic, V::Name(b"A".to_vec())),
        _ => (IconScaleType::Proportional, V::Name(b"P".to_vec())),
    }
}
pub const N_HIGHLIGHT_EFFECT: u8 = 4;
pub fn en_highlight_effect<'a>(s: &mut Src, b: &'a [u8]) -> (HighlightEffect, V) {
    match s.next() % 4 {
        0 => (HighlightEffect::None, V::Name(b"N".to_vec())),
        1 => (HighlightEffect::Invert, V::Name(b"I".to_vec())),
        2 => (HighlightEffect::Outline, V::Name(b"O".to_vec())),
        _ => (HighlightEffect::Push, V::Name(b"P".to_vec())),
    }
}
pub const N_BORDER_TYPE: u8 = 5;
pub fn en_border_type<'a>(s: &mut Src, b: &'a [u8]) -> (BorderType, V) {
    match s.next() % 5 {
        0 => (BorderType::Solid, V::Name(b"S".to_vec())),
        1 => (BorderType::Dashed, V::Name(b"D".to_vec())),
        2 => (BorderType::Beveled, V::Name(b"B".to_vec())),
        3 => (BorderType::Inset, V::Name(b"I".to_vec())),
        _ => (BorderType::Underline, V::Name(b"U".to_vec())),
    }
}
pub const N_PLACEMENT: u8 = 5;
pub fn en_placement<'a>(s: &mut Src, b: &'a [u8]) -> (Placement, V) {
    match s.next() % 5 {
        0 => (Placement::Block, V::Name(b"Block".to_vec())),
        1 => (Placement::Inline, V::Name(b"Inline".to_vec())),
        2 => (Placement::Before, V::Name(b"Before".to_vec())),
        3 => (Placement::Start, V::Name(b"Start".to_vec())),
        _ => (Placement::End, V::Name(b"End".to_vec())),
    }
}
pub const N_WRITING_MODE: u8 = 3;
pub fn en_writing_mode<'a>(s: &mut Src, b: &'a [u8]) -> (WritingMode, V) {
    match s.next() % 3 {
        0 => (WritingMode::LtrTtb, V::Name(b"LrTb".to_vec())),
        1 => (WritingMode::RtlTtb, V::Name(b"RlTb".to_vec())),
        _ => (WritingMode::TtbRtl, V::Name(b"TbRl".to_vec())),
    }
}
pub const N_LAYOUT_BORDER_STYLE: u8 = 10;
pub fn en_layout_border_style<'a>(s: &mut Src, b: &'a [u8]) -> (LayoutBorderStyle, V) {
    match s.next() % 10 {
        0 => (LayoutBorderStyle::None, V::Name(b"None".to_vec())),
        1 => (LayoutBorderStyle::Hidden, V::Name(b"Hidden".to_vec())),
        2 => (LayoutBorderStyle::Solid, V::Name(b"Solid".to_vec())),
        3 => (LayoutBorderStyle::Dashed, V::Name(b"Dashed".to_vec())),
        4 => (LayoutBorderStyle::Dotted, V::Name(b"Dotted".to_vec())),
        5 => (LayoutBorderStyle::Double, V::Name(b"Double".to_vec())),
        6 => (LayoutBorderStyle::Groove, V::Name(b"Groove".to_vec())),
        7 => (LayoutBorderStyle::Ridge, V::Name(b"Ridge".to_vec())),
        8 => (LayoutBorderStyle::Inset, V::Name(b"Inset".to_vec())),
        _ => (LayoutBorderStyle::Outset, V::Name(b"Outset".to_vec())),
    }
}
pub const N_TEXT_ALIGN: u8 = 4;
pub fn en_text_align<'a>(s: &mut Src, b: &'a [u8]) -> (TextAlign, V) {
    match s.next() % 4 {
        0 => (TextAlign::Start, V::Name(b"Start".to_vec())),
        1 => (TextAlign::Center, V::Name(b"Center".to_vec())),
        2 => (TextAlign::End, V::Name(b"End".to_vec())),
        _ => (TextAlign::Justify, V::Name(b"Justify".to_vec())),
    }
}
pub const N_BLOCK_ALIGN: u8 = 4;
pub fn en_block_align<'a>(s: &mut Src, b: &'a [u8]) -> (BlockAlign, V) {
    match s.next() % 4 {
        0 => (BlockAlign::Before, V::Name(b"Before".to_vec())),
        1 => (BlockAlign::Middle, V::Name(b"Middle".to_vec())),
        2 => (BlockAlign::After, V::Name(b"After".to_vec())),
        _ => (BlockAlign::Justify, V::Name(b"Justify".to_vec())),
    }
}
pub const N_INLINE_ALIGN: u8 = 3;
pub fn en_inline_align<'a>(s: &mut Src, b: &'a [u8]) -> (InlineAlign, V) {
    match s.next() % 3 {
        0 => (InlineAlign::Start, V::Name(b"Start".to_vec())),
        1 => (InlineAlign::Center, V::Name(b"Center".to_vec())),
        _ => (InlineAlign::End, V::Name(b"End".to_vec())),
    }
}
pub const N_LAYOUT_TEXT_POSITION: u8 = 3;
pub fn en_layout_text_position<'a>(s: &mut Src, b: &'a [u8]) -> (LayoutTextPosition, V) {
    match s.next() % 3 {
        0 => (LayoutTextPosition::Normal, V::Name(b"Normal".to_vec())),
        1 => (LayoutTextPosition::Superscript, V::Name(b"Sup".to_vec())),
        _ => (LayoutTextPosition::Subscript, V::Name(b"Sub".to_vec())),
    }
}
pub const N_TEXT_DECORATION_TYPE: u8 = 4;
pub fn en_text_decoration_type<'a>(s: &mut Src, b: &'a [u8]) -> (TextDecorationType, V) {
    match s.next() % 4 {
        0 => (TextDecorationType::None, V::Name(b"None".to_vec())),
        1 => (TextDecorationType::Underline, V::Name(b"Underline".to_vec())),
        2 => (TextDecorationType::Overline, V::Name(b"Overline".to_vec())),
        _ => (TextDecorationType::LineThrough, V::Name(b"LineThrough".to_vec())),
    }
}
pub const N_RUBY_ALIGN: u8 = 5;
pub fn en_ruby_align<'a>(s: &mut Src, b: &'a [u8]) -> (RubyAlign, V) {
    match s.next() % 5 {
        0 => (RubyAlign::Start, V::Name(b"Start".to_vec())),
        1 => (RubyAlign::Center, V::Name(b"Center".to_vec())),
        2 => (RubyAlign::End, V::Name(b"End".to_vec())),
        3 => (RubyAlign::Justify, V::Name(b"Justify".to_vec())),
        _ => (RubyAlign::Distribute, V::Name(b"Distribute".to_vec())),
    }
}
pub const N_RUBY_POSITION: u8 = 4;
pub fn en_ruby_position<'a>(s: &mut Src, b: &'a [u8]) -> (RubyPosition, V) {
    match s.next() % 4 {
        0 => (RubyPosition::Before, V::Name(b"Before".to_vec())),
        1 => (RubyPosition::After, V::Name(b"After".to_vec())),
        2 => (RubyPosition::Warichu, V::Name(b"Warichu".to_vec())),
        _ => (RubyPosition::Inline, V::Name(b"Inline".to_vec())),
    }
}
pub const N_LIST_NUMBERING: u8 = 12;
pub fn en_list_numbering<'a>(s: &mut Src, b: &'a [u8]) -> (ListNumbering, V) {
    match s.next() % 12 {
        0 => (ListNumbering::None, V::Name(b"None".to_vec())),
        1 => (ListNumbering::Unordered, V::Name(b"Unordered".to_vec())),
        2 => (ListNumbering::Ordered, V::Name(b"Ordered".to_vec())),
        3 => (ListNumbering::Description, V::Name(b"Description".to_vec())),
        4 => (ListNumbering::Disc, V::Name(b"Disc".to_vec())),
        5 => (ListNumbering::Circle, V::Name(b"Circle".to_vec())),
        6 => (ListNumbering::Square, V::Name(b"Square".to_vec())),
        7 => (ListNumbering::Decimal, V::Name(b"Decimal".to_vec())),
        8 => (ListNumbering::LowerRoman, V::Name(b"LowerRoman".to_vec())),
        9 => (ListNumbering::UpperRoman, V::Name(b"UpperRoman".to_vec())),
        10 => (ListNumbering::LowerAlpha, V::Name(b"LowerAlpha".to_vec())),
        _ => (ListNumbering::UpperAlpha, V::Name(b"UpperAlpha".to_vec())),
    }
}
pub const N_FIELD_ROLE: u8 = 5;
pub fn en_field_role<'a>(s: &mut Src, b: &'a [u8]) -> (FieldRole, V) {
    match s.next() % 5 {
        0 => (FieldRole::Button, V::Name(b"pb".to_vec())),
        1 => (FieldRole::CheckBox, V::Name(b"cb".to_vec())),
        2 => (FieldRole::RadioButton, V::Name(b"rb".to_vec())),
        3 => (FieldRole::TextField, V::Name(b"tv".to_vec())),
        _ => (FieldRole::ListBox, V::Name(b"lb".to_vec())),
    }
}
pub const N_FIELD_STATE: u8 = 3;
pub fn en_field_state<'a>(s: &mut Src, b: &'a [u8]) -> (FieldState, V) {
    match s.next() % 3 {
        0 => (FieldState::Unchecked, V::Name(b"off".to_vec())),
        1 => (FieldState::Checked, V::Name(b"on".to_vec())),
        _ => (FieldState::Neutral, V::Name(b"neutral".to_vec())),
    }
}
pub const N_TABLE_HEADER_SCOPE: u8 = 3;
pub fn en_table_header_scope<'a>(s: &mut Src, b: &'a [u8]) -> (TableHeaderScope, V) {
    match s.next() % 3 {
        0 => (TableHeaderScope::Row, V::Name(b"Row".to_vec())),
        1 => (TableHeaderScope::Column, V::Name(b"Column".to_vec())),
        _ => (TableHeaderScope::Both, V::Name(b"Both".to_vec())),
    }
}
pub const N_NOTE_TYPE: u8 = 3;
pub fn en_note_type<'a>(s: &mut Src, b: &'a [u8]) -> (NoteType, V) {
    match s.next() % 3 {
        0 => (NoteType::Footnote, V::Name(b"Footnote".to_vec())),
        1 => (NoteType::Endnote, V::Name(b"Endnote".to_vec())),
        _ => (NoteType::None, V::Name(b"None".to_vec())),
    }
}
pub const N_DEVICE_N_SUBTYPE: u8 = 2;
pub fn en_device_n_subtype<'a>(s: &mut Src, b: &'a [u8]) -> (DeviceNSubtype, V) {
    match s.next() % 2 {
        0 => (DeviceNSubtype::DeviceN, V::Name(b"DeviceN".to_vec())),
        _ => (DeviceNSubtype::NChannel, V::Name(b"NChannel".to_vec())),
    }
}
pub const N_PAINT_TYPE: u8 = 2;
pub fn en_paint_type<'a>(s: &mut Src, b: &'a [u8]) -> (PaintType, V) {
    match s.next() % 2 {
        0 => (PaintType::Colored, V::Int(1)),
        _ => (PaintType::Uncolored, V::Int(2)),
    }
}
pub const N_TILING_TYPE: u8 = 3;
pub fn en_tiling_type<'a>(s: &mut Src, b: &'a [u8]) -> (TilingType, V) {
    match s.next() % 3 {
        0 => (TilingType::ConstantSpacing, V::Int(1)),
        1 => (TilingType::NoDistortion, V::Int(2)),
        _ => (TilingType::FastConstantSpacing, V::Int(3)),
    }
}
pub const N_FUNCTION_SHADING_TYPE: u8 = 3;
pub fn en_function_shading_type<'a>(s: &mut Src, b: &'a [u8]) -> (FunctionShadingType, V) {
    match s.next() % 3 {
        0 => (FunctionShadingType::Function, V::Int(1)),
        1 => (FunctionShadingType::Axial, V::Int(2)),
        _ => (FunctionShadingType::Radial, V::Int(3)),
    }
}
pub const N_STREAM_SHADING_TYPE: u8 = 4;
pub fn en_stream_shading_type<'a>(s: &mut Src, b: &'a [u8]) -> (StreamShadingType, V) {
    match s.next() % 4 {
        0 => (StreamShadingType::FreeformGouraud, V::Int(4)),
        1 => (StreamShadingType::LatticeGouraud, V::Int(5)),
        2 => (StreamShadingType::CoonsPatch, V::Int(6)),
        _ => (StreamShadingType::TensorProductPatch, V::Int(7)),
    }
}
pub const N_OUTPUT_INTENT_SUBTYPE: u8 = 4;
pub fn en_output_intent_subtype<'a>(s: &mut Src, b: &'a [u8]) -> (OutputIntentSubtype<'a>, V) {
    match s.next() % 4 {
        0 => (OutputIntentSubtype::PDFX, V::Name(b"GTS_PDFX".to_vec())),
        1 => (OutputIntentSubtype::PDFA, V::Name(b"GTS_PDFA1".to_vec())),
        2 => (OutputIntentSubtype::PDFE, V::Name(b"ISO_PDFE1".to_vec())),
        _ => (OutputIntentSubtype::Custom(Name(b)), V::Name(b.to_vec())),
    }
}
pub const N_LINE_CAP_STYLE: u8 = 3;
pub fn en_line_cap_style<'a>(s: &mut Src, b: &'a [u8]) -> (LineCapStyle, V) {
    match s.next() % 3 {
        0 => (LineCapStyle::ButtCap, V::Int(0)),
        1 => (LineCapStyle::RoundCap, V::Int(1)),
        _ => (LineCapStyle::ProjectingSquareCap, V::Int(2)),
    }
}
pub const N_LINE_JOIN_STYLE: u8 = 3;
pub fn en_line_join_style<'a>(s: &mut Src, b: &'a [u8]) -> (LineJoinStyle, V) {
    match s.next() % 3 {
        0 => (LineJoinStyle::MiterJoin, V::Int(0)),
        1 => (LineJoinStyle::RoundJoin, V::Int(1)),
        _ => (LineJoinStyle::BevelJoin, V::Int(2)),
    }
}
pub const N_RENDERING_INTENT: u8 = 4;
pub fn en_rendering_intent<'a>(s: &mut Src, b: &'a [u8]) -> (RenderingIntent, V) {
    match s.next() % 4 {
        0 => (RenderingIntent::AbsoluteColorimetric, V::Name(b"AbsoluteColorimetric".to_vec())),
        1 => (RenderingIntent::RelativeColorimetric, V::Name(b"RelativeColorimetric".to_vec())),
        2 => (RenderingIntent::Saturation, V::Name(b"Saturation".to_vec())),
        _ => (RenderingIntent::Perceptual, V::Name(b"Perceptual".to_vec())),
    }
}
pub const N_TEXT_RENDERING_MODE: u8 = 8;
pub fn en_text_rendering_mode<'a>(s: &mut Src, b: &'a [u8]) -> (TextRenderingMode, V) {
    match s.next() % 8 {
        0 => (TextRenderingMode::Fill, V::Int(0)),
        1 => (TextRenderingMode::Stroke, V::Int(1)),
        2 => (TextRenderingMode::FillStroke, V::Int(2)),
        3 => (TextRenderingMode::Invisible, V::Int(3)),
        4 => (TextRenderingMode::FillClip, V::Int(4)),
        5 => (TextRenderingMode::StrokeClip, V::Int(5)),
        6 => (TextRenderingMode::FillStrokeClip, V::Int(6)),
        _ => (TextRenderingMode::Clip, V::Int(7)),
    }
}
pub const N_ARTIFACT_TYPE: u8 = 5;
pub fn en_artifact_type<'a>(s: &mut Src, b: &'a [u8]) -> (ArtifactType, V) {
    match s.next() % 5 {
        0 => (ArtifactType::Pagination, V::Name(b"Pagination".to_vec())),
        1 => (ArtifactType::Layout, V::Name(b"Layout".to_vec())),
        2 => (ArtifactType::Page, V::Name(b"Page".to_vec())),
        3 => (ArtifactType::Background, V::Name(b"Background".to_vec())),
        _ => (ArtifactType::Inline, V::Name(b"Inline".to_vec())),
    }
}
pub const N_ARTIFACT_SUBTYPE: u8 = 8;
pub fn en_artifact_subtype<'a>(s: &mut Src, b: &'a [u8]) -> (ArtifactSubtype<'a>, V) {
    match s.next() % 8 {
        0 => (ArtifactSubtype::Header, V::Name(b"Header".to_vec())),
        1 => (ArtifactSubtype::Footer, V::Name(b"Footer".to_vec())),
        2 => (ArtifactSubtype::Watermark, V::Name(b"Watermark".to_vec())),
        3 => (ArtifactSubtype::PageNumber, V::Name(b"PageNum".to_vec())),
        4 => (ArtifactSubtype::Bates, V::Name(b"Bates".to_vec())),
        5 => (ArtifactSubtype::LineNumber, V::Name(b"LineNum".to_vec())),
        6 => (ArtifactSubtype::Redaction, V::Name(b"Redaction".to_vec())),
        _ => (ArtifactSubtype::Custom(Name(b)), V::Name(b.to_vec())),
    }
}
pub const N_ARTIFACT_ATTACHMENT: u8 = 4;
pub fn en_artifact_attachment<'a>(s: &mut Src, b: &'a [u8]) -> (ArtifactAttachment, V) {
    match s.next() % 4 {
        0 => (ArtifactAttachment::Left, V::Name(b"Left".to_vec())),
        1 => (ArtifactAttachment::Top, V::Name(b"Top".to_vec())),
        2 => (ArtifactAttachment::Right, V::Name(b"Right".to_vec())),
        _ => (ArtifactAttachment::Bottom, V::Name(b"Bottom".to_vec())),
    }
}
pub const N_PROC_SET: u8 = 5;
pub fn en_proc_set<'a>(s: &mut Src, b: &'a [u8]) -> (ProcSet, V) {
    match s.next() % 5 {
        0 => (ProcSet::Pdf, V::Name(b"PDF".to_vec())),
        1 => (ProcSet::Text, V::Name(b"Text".to_vec())),
        2 => (ProcSet::ImageGrayscale, V::Name(b"ImageB".to_vec())),
        3 => (ProcSet::ImageColor, V::Name(b"ImageC".to_vec())),
        _ => (ProcSet::ImageIndexed, V::Name(b"ImageI".to_vec())),
    }
}
pub const N_BLEND_MODE: u8 = 16;
pub fn en_blend_mode<'a>(s: &mut Src, b: &'a [u8]) -> (BlendMode, V) {
    match s.next() % 16 {
        0 => (BlendMode::Normal, V::Name(b"Normal".to_vec())),
        1 => (BlendMode::Multiply, V::Name(b"Multiply".to_vec())),
        2 => (BlendMode::Screen, V::Name(b"Screen".to_vec())),
        3 => (BlendMode::Overlay, V::Name(b"Overlay".to_vec())),
        4 => (BlendMode::Darken, V::Name(b"Darken".to_vec())),
        5 => (BlendMode::Lighten, V::Name(b"Lighten".to_vec())),
        6 => (BlendMode::ColorDodge, V::Name(b"ColorDodge".to_vec())),
        7 => (BlendMode::ColorBurn, V::Name(b"ColorBurn".to_vec())),
        8 => (BlendMode::HardLight, V::Name(b"HardLight".to_vec())),
        9 => (BlendMode::SoftLight, V::Name(b"SoftLight".to_vec())),
        10 => (BlendMode::Difference, V::Name(b"Difference".to_vec())),
        11 => (BlendMode::Exclusion, V::Name(b"Exclusion".to_vec())),
        12 => (BlendMode::Hue, V::Name(b"Hue".to_vec())),
        13 => (BlendMode::Saturation, V::Name(b"Saturation".to_vec())),
        14 => (BlendMode::Color, V::Name(b"Color".to_vec())),
        _ => (BlendMode::Luminosity, V::Name(b"Luminosity".to_vec())),
    }
}
pub const N_OVERPRINT_MODE: u8 = 2;
pub fn en_overprint_mode<'a>(s: &mut Src, b: &'a [u8]) -> (OverprintMode, V) {
    match s.next() % 2 {
        0 => (OverprintMode::OverrideAllColorants, V::Int(0)),
        _ => (OverprintMode::IgnoreZeroChannel, V::Int(1)),
    }
}
pub const N_MASK_TYPE: u8 = 2;
pub fn en_mask_type<'a>(s: &mut Src, b: &'a [u8]) -> (MaskType, V) {
    match s.next() % 2 {
        0 => (MaskType::Alpha, V::Name(b"Alpha".to_vec())),
        _ => (MaskType::Luminosity, V::Name(b"Luminosity".to_vec())),
    }
}
pub const N_ASSOCIATION_KIND: u8 = 8;
pub fn en_association_kind<'a>(s: &mut Src, b: &'a [u8]) -> (AssociationKind, V) {
    match s.next() % 8 {
        0 => (AssociationKind::Source, V::Name(b"Source".to_vec())),
        1 => (AssociationKind::Data, V::Name(b"Data".to_vec())),
        2 => (AssociationKind::Alternative, V::Name(b"Alternative".to_vec())),
        3 => (AssociationKind::Supplement, V::Name(b"Supplement".to_vec())),
        4 => (AssociationKind::EncryptedPayload, V::Name(b"EncryptedPayload".to_vec())),
        5 => (AssociationKind::FormData, V::Name(b"FormData".to_vec())),
        6 => (AssociationKind::Schema, V::Name(b"Schema".to_vec())),
        _ => (AssociationKind::Unspecified, V::Name(b"Unspecified".to_vec())),
    }
}
pub const N_CID_FONT_TYPE: u8 = 2;
pub fn en_cid_font_type<'a>(s: &mut Src, b: &'a [u8]) -> (CidFontType, V) {
    match s.next() % 2 {
        0 => (CidFontType::Type0, V::Name(b"CIDFontType0".to_vec())),
        _ => (CidFontType::Type2, V::Name(b"CIDFontType2".to_vec())),
    }
}
pub const N_CJK_CLASS: u8 = 19;
pub fn en_cjk_class<'a>(s: &mut Src, b: &'a [u8]) -> (CjkClass, V) {
    match s.next() % 19 {
        0 => (CjkClass::Alphabetic, V::Name(b"Alphabetic".to_vec())),
        1 => (CjkClass::AlphaNum, V::Name(b"AlphaNum".to_vec())),
        2 => (CjkClass::Dingbats, V::Name(b"Dingbats".to_vec())),
        3 => (CjkClass::DingbatsRot, V::Name(b"DingbatsRot".to_vec())),
        4 => (CjkClass::Generic, V::Name(b"Generic".to_vec())),
        5 => (CjkClass::GenericRot, V::Name(b"GenericRot".to_vec())),
        6 => (CjkClass::Hangul, V::Name(b"Hangul".to_vec())),
        7 => (CjkClass::Hanja, V::Name(b"Hanja".to_vec())),
        8 => (CjkClass::Hanzi, V::Name(b"Hanzi".to_vec())),
        9 => (CjkClass::HRoman, V::Name(b"HRoman".to_vec())),
        10 => (CjkClass::HRomanRot, V::Name(b"HRomanRot".to_vec())),
        11 => (CjkClass::HKana, V::Name(b"HKana".to_vec())),
        12 => (CjkClass::HKanaRot, V::Name(b"HKanaRot".to_vec())),
        13 => (CjkClass::HojoKanji, V::Name(b"HojoKanji".to_vec())),
        14 => (CjkClass::Kana, V::Name(b"Kana".to_vec())),
        15 => (CjkClass::Kanji, V::Name(b"Kanji".to_vec())),
        16 => (CjkClass::Proportional, V::Name(b"Proportional".to_vec())),
        17 => (CjkClass::ProportionalRot, V::Name(b"ProportionalRot".to_vec())),
        _ => (CjkClass::Ruby, V::Name(b"Ruby".to_vec())),
    }
}
pub const N_FONT_STRETCH: u8 = 9;
pub fn en_font_stretch<'a>(s: &mut Src, b: &'a [u8]) -> (FontStretch, V) {
    match s.next() % 9 {
        0 => (FontStretch::UltraCondensed, V::Name(b"UltraCondensed".to_vec())),
        1 => (FontStretch::ExtraCondensed, V::Name(b"ExtraCondensed".to_vec())),
        2 => (FontStretch::Condensed, V::Name(b"Condensed".to_vec())),
        3 => (FontStretch::SemiCondensed, V::Name(b"SemiCondensed".to_vec())),
        4 => (FontStretch::Normal, V::Name(b"Normal".to_vec())),
        5 => (FontStretch::SemiExpanded, V::Name(b"SemiExpanded".to_vec())),
        6 => (FontStretch::Expanded, V::Name(b"Expanded".to_vec())),
        7 => (FontStretch::ExtraExpanded, V::Name(b"ExtraExpanded".to_vec())),
        _ => (FontStretch::UltraExpanded, V::Name(b"UltraExpanded".to_vec())),
    }
}
pub const N_W_MODE: u8 = 2;
pub fn en_w_mode<'a>(s: &mut Src, b: &'a [u8]) -> (WMode, V) {
    match s.next() % 2 {
        0 => (WMode::Horizontal, V::Int(0)),
        _ => (WMode::Vertical, V::Int(1)),
    }
}
pub const N_FIELD_TYPE: u8 = 4;
pub fn en_field_type<'a>(s: &mut Src, b: &'a [u8]) -> (FieldType, V) {
    match s.next() % 4 {
        0 => (FieldType::Button, V::Name(b"Btn".to_vec())),
        1 => (FieldType::Text, V::Name(b"Tx".to_vec())),
        2 => (FieldType::Choice, V::Name(b"Ch".to_vec())),
        _ => (FieldType::Signature, V::Name(b"Sig".to_vec())),
    }
}
pub const N_CHECK_BOX_STATE: u8 = 2;
pub fn en_check_box_state<'a>(s: &mut Src, b: &'a [u8]) -> (CheckBoxState, V) {
    match s.next() % 2 {
        0 => (CheckBoxState::Yes, V::Name(b"Yes".to_vec())),
        _ => (CheckBoxState::Off, V::Name(b"Off".to_vec())),
    }
}
pub const N_SIGNATURE_LOCK_ACTION: u8 = 3;
pub fn en_signature_lock_action<'a>(s: &mut Src, b: &'a [u8]) -> (SignatureLockAction, V) {
    match s.next() % 3 {
        0 => (SignatureLockAction::All, V::Name(b"All".to_vec())),
        1 => (SignatureLockAction::Include, V::Name(b"Include".to_vec())),
        _ => (SignatureLockAction::Exclude, V::Name(b"Exclude".to_vec())),
    }
}
pub const N_SIGNATURE_DIGEST_METHOD: u8 = 5;
pub fn en_signature_digest_method<'a>(s: &mut Src, b: &'a [u8]) -> (SignatureDigestMethod, V) {
    match s.next() % 5 {
        0 => (SignatureDigestMethod::SHA1, V::Name(b"SHA1".to_vec())),
        1 => (SignatureDigestMethod::SHA256, V::Name(b"SHA256".to_vec())),
        2 => (SignatureDigestMethod::SHA384, V::Name(b"SHA384".to_vec())),
        3 => (SignatureDigestMethod::SHA512, V::Name(b"SHA512".to_vec())),
        _ => (SignatureDigestMethod::RIPEMD160, V::Name(b"RIPEMD160".to_vec())),
    }
}
pub const N_SEED_VALUE_PARSER_VERSION: u8 = 3;
pub fn en_seed_value_parser_version<'a>(s: &mut Src, b: &'a [u8]) -> (SeedValueParserVersion, V) {
    match s.next() % 3 {
        0 => (SeedValueParserVersion::Pdf15, V::Int(1)),
        1 => (SeedValueParserVersion::Pdf17, V::Int(2)),
        _ => (SeedValueParserVersion::Pdf20, V::Int(3)),
    }
}
pub const N_ACCESS_PERMISSIONS: u8 = 3;
pub fn en_access_permissions<'a>(s: &mut Src, b: &'a [u8]) -> (AccessPermissions, V) {
    match s.next() % 3 {
        0 => (AccessPermissions::NoChanges, V::Int(1)),
        1 => (AccessPermissions::FillAndSign, V::Int(2)),
        _ => (AccessPermissions::Annotations, V::Int(3)),
    }
}
pub const N_LOCKING_INTENT: u8 = 3;
pub fn en_locking_intent<'a>(s: &mut Src, b: &'a [u8]) -> (LockingIntent, V) {
    match s.next() % 3 {
        0 => (LockingIntent::Lock, V::Name(b"true".to_vec())),
        1 => (LockingIntent::DoNotLock, V::Name(b"false".to_vec())),
        _ => (LockingIntent::Auto, V::Name(b"auto".to_vec())),
    }
}
pub const N_CERTIFICATE_URL_TYPE: u8 = 2;
pub fn en_certificate_url_type<'a>(s: &mut Src, b: &'a [u8]) -> (CertificateUrlType<'a>, V) {
    match s.next() % 2 {
        0 => (CertificateUrlType::Browser, V::Name(b"Browser".to_vec())),
        _ => (CertificateUrlType::Custom(Name(b)), V::Name(b.to_vec())),
    }
}
pub const N_INTERPOLATION_ORDER: u8 = 2;
pub fn en_interpolation_order<'a>(s: &mut Src, b: &'a [u8]) -> (InterpolationOrder, V) {
    match s.next() % 2 {
        0 => (InterpolationOrder::Linear, V::Int(1)),
        _ => (InterpolationOrder::Cubic, V::Int(3)),
    }
}
pub const N_FILTER: u8 = 10;
pub fn en_filter<'a>(s: &mut Src, b: &'a [u8]) -> (Filter, V) {
    match s.next() % 10 {
        0 => (Filter::AsciiHexDecode, V::Name(b"ASCIIHexDecode".to_vec())),
        1 => (Filter::Ascii85Decode, V::Name(b"ASCII85Decode".to_vec())),
        2 => (Filter::LzwDecode, V::Name(b"LZWDecode".to_vec())),
        3 => (Filter::FlateDecode, V::Name(b"FlateDecode".to_vec())),
        4 => (Filter::RunLengthDecode, V::Name(b"RunLengthDecode".to_vec())),
        5 => (Filter::CcittFaxDecode, V::Name(b"CCITTFaxDecode".to_vec())),
        6 => (Filter::Jbig2Decode, V::Name(b"JBIG2Decode".to_vec())),
        7 => (Filter::DctDecode, V::Name(b"DCTDecode".to_vec())),
        8 => (Filter::JpxDecode, V::Name(b"JPXDecode".to_vec())),
        _ => (Filter::Crypt, V::Name(b"Crypt".to_vec())),
    }
}
pub const N_TEMP_FILE_TYPE: u8 = 4;
pub fn en_temp_file_type<'a>(s: &mut Src, b: &'a [u8]) -> (TempFileType, V) {
    match s.next() % 4 {
        0 => (TempFileType::Never, V::Str(b"TEMPNEVER".to_vec())),
        1 => (TempFileType::Extract, V::Str(b"TEMPEXTRACT".to_vec())),
        2 => (TempFileType::Access, V::Str(b"TEMPACCESS".to_vec())),
        _ => (TempFileType::Always, V::Str(b"TEMPALWAYS".to_vec())),
    }
}
pub const N_RENDITION_TYPE: u8 = 2;
pub fn en_rendition_type<'a>(s: &mut Src, b: &'a [u8]) -> (RenditionType, V) {
    match s.next() % 2 {
        0 => (RenditionType::Media, V::Name(b"MR".to_vec())),
        _ => (RenditionType::Selector, V::Name(b"SR".to_vec())),
    }
}
pub const N_MEDIA_CLIP_TYPE: u8 = 2;
pub fn en_media_clip_type<'a>(s: &mut Src, b: &'a [u8]) -> (MediaClipType, V) {
    match s.next() % 2 {
        0 => (MediaClipType::Data, V::Name(b"MCD".to_vec())),
        _ => (MediaClipType::Section, V::Name(b"MCS".to_vec())),
    }
}
pub const N_PAGE_LAYOUT: u8 = 6;
pub fn en_page_layout<'a>(s: &mut Src, b: &'a [u8]) -> (PageLayout, V) {
    match s.next() % 6 {
        0 => (PageLayout::SinglePage, V::Name(b"SinglePage".to_vec())),
        1 => (PageLayout::OneColumn, V::Name(b"OneColumn".to_vec())),
        2 => (PageLayout::TwoColumnLeft, V::Name(b"TwoColumnLeft".to_vec())),
        3 => (PageLayout::TwoColumnRight, V::Name(b"TwoColumnRight".to_vec())),
        4 => (PageLayout::TwoPageLeft, V::Name(b"TwoPageLeft".to_vec())),
        _ => (PageLayout::TwoPageRight, V::Name(b"TwoPageRight".to_vec())),
    }
}
pub const N_PAGE_MODE: u8 = 6;
pub fn en_page_mode<'a>(s: &mut Src, b: &'a [u8]) -> (PageMode, V) {
    match s.next() % 6 {
        0 => (PageMode::UseNone, V::Name(b"UseNone".to_vec())),
        1 => (PageMode::UseOutlines, V::Name(b"UseOutlines".to_vec())),
        2 => (PageMode::UseThumbs, V::Name(b"UseThumbs".to_vec())),
        3 => (PageMode::FullScreen, V::Name(b"FullScreen".to_vec())),
        4 => (PageMode::UseOC, V::Name(b"UseOC".to_vec())),
        _ => (PageMode::UseAttachments, V::Name(b"UseAttachments".to_vec())),
    }
}
pub const N_STRUCT_ROLE: u8 = 49;
pub fn en_struct_role<'a>(s: &mut Src, b: &'a [u8]) -> (StructRole, V) {
    match s.next() % 49 {
        0 => (StructRole::Document, V::Name(b"Document".to_vec())),
        1 => (StructRole::Part, V::Name(b"Part".to_vec())),
        2 => (StructRole::Art, V::Name(b"Art".to_vec())),
        3 => (StructRole::Sect, V::Name(b"Sect".to_vec())),
        4 => (StructRole::Div, V::Name(b"Div".to_vec())),
        5 => (StructRole::BlockQuote, V::Name(b"BlockQuote".to_vec())),
        6 => (StructRole::Caption, V::Name(b"Caption".to_vec())),
        7 => (StructRole::TOC, V::Name(b"TOC".to_vec())),
        8 => (StructRole::TOCI, V::Name(b"TOCI".to_vec())),
        9 => (StructRole::Index, V::Name(b"Index".to_vec())),
        10 => (StructRole::NonStruct, V::Name(b"NonStruct".to_vec())),
        11 => (StructRole::Private, V::Name(b"Private".to_vec())),
        12 => (StructRole::P, V::Name(b"P".to_vec())),
        13 => (StructRole::StructuredHeading, V::Name(b"H".to_vec())),
        14 => (StructRole::H1, V::Name(b"H1".to_vec())),
        15 => (StructRole::H2, V::Name(b"H2".to_vec())),
        16 => (StructRole::H3, V::Name(b"H3".to_vec())),
        17 => (StructRole::H4, V::Name(b"H4".to_vec())),
        18 => (StructRole::H5, V::Name(b"H5".to_vec())),
        19 => (StructRole::H6, V::Name(b"H6".to_vec())),
        20 => (StructRole::L, V::Name(b"L".to_vec())),
        21 => (StructRole::LI, V::Name(b"LI".to_vec())),
        22 => (StructRole::Lbl, V::Name(b"Lbl".to_vec())),
        23 => (StructRole::LBody, V::Name(b"LBody".to_vec())),
        24 => (StructRole::Table, V::Name(b"Table".to_vec())),
        25 => (StructRole::TR, V::Name(b"TR".to_vec())),
        26 => (StructRole::TH, V::Name(b"TH".to_vec())),
        27 => (StructRole::TD, V::Name(b"TD".to_vec())),
        28 => (StructRole::THead, V::Name(b"THead".to_vec())),
        29 => (StructRole::TBody, V::Name(b"TBody".to_vec())),
        30 => (StructRole::TFoot, V::Name(b"TFoot".to_vec())),
        31 => (StructRole::Span, V::Name(b"Span".to_vec())),
        32 => (StructRole::Quote, V::Name(b"Quote".to_vec())),
        33 => (StructRole::Note, V::Name(b"Note".to_vec())),
        34 => (StructRole::Reference, V::Name(b"Reference".to_vec())),
        35 => (StructRole::BibEntry, V::Name(b"BibEntry".to_vec())),
        36 => (StructRole::Code, V::Name(b"Code".to_vec())),
        37 => (StructRole::Link, V::Name(b"Link".to_vec())),
        38 => (StructRole::Annot, V::Name(b"Annot".to_vec())),
        39 => (StructRole::Ruby, V::Name(b"Ruby".to_vec())),
        40 => (StructRole::Warichu, V::Name(b"Warichu".to_vec())),
        41 => (StructRole::RB, V::Name(b"RB".to_vec())),
        42 => (StructRole::RT, V::Name(b"RT".to_vec())),
        43 => (StructRole::RP, V::Name(b"RP".to_vec())),
        44 => (StructRole::WT, V::Name(b"WT".to_vec())),
        45 => (StructRole::WP, V::Name(b"WP".to_vec())),
        46 => (StructRole::Figure, V::Name(b"Figure".to_vec())),
        47 => (StructRole::Formula, V::Name(b"Formula".to_vec())),
        _ => (StructRole::Form, V::Name(b"Form".to_vec())),
    }
}
pub const N_PHONETIC_ALPHABET: u8 = 5;
pub fn en_phonetic_alphabet<'a>(s: &mut Src, b: &'a [u8]) -> (PhoneticAlphabet<'a>, V) {
    match s.next() % 5 {
        0 => (PhoneticAlphabet::Ipa, V::Name(b"ipa".to_vec())),
        1 => (PhoneticAlphabet::XSampa, V::Name(b"x-sampa".to_vec())),
        2 => (PhoneticAlphabet::Pinyin, V::Name(b"zh-Latn-pinyin".to_vec())),
        3 => (PhoneticAlphabet::WadeGiles, V::Name(b"zh-Latn-wadegile".to_vec())),
        _ => (PhoneticAlphabet::Custom(Name(b)), V::Name(b.to_vec())),
    }
}
pub const N_DIRECTION: u8 = 2;
pub fn en_direction<'a>(s: &mut Src, b: &'a [u8]) -> (Direction, V) {
    match s.next() % 2 {
        0 => (Direction::L2R, V::Name(b"L2R".to_vec())),
        _ => (Direction::R2L, V::Name(b"R2L".to_vec())),
    }
}
pub const N_NUMBERING_STYLE: u8 = 5;
pub fn en_numbering_style<'a>(s: &mut Src, b: &'a [u8]) -> (NumberingStyle, V) {
    match s.next() % 5 {
        0 => (NumberingStyle::Arabic, V::Name(b"D".to_vec())),
        1 => (NumberingStyle::LowerRoman, V::Name(b"r".to_vec())),
        2 => (NumberingStyle::UpperRoman, V::Name(b"R".to_vec())),
        3 => (NumberingStyle::LowerAlpha, V::Name(b"a".to_vec())),
        _ => (NumberingStyle::UpperAlpha, V::Name(b"A".to_vec())),
    }
}
pub const N_TRAPPING_STATUS: u8 = 3;
pub fn en_trapping_status<'a>(s: &mut Src, b: &'a [u8]) -> (TrappingStatus, V) {
    match s.next() % 3 {
        0 => (TrappingStatus::Trapped, V::Name(b"True".to_vec())),
        1 => (TrappingStatus::NotTrapped, V::Name(b"False".to_vec())),
        _ => (TrappingStatus::Unknown, V::Name(b"Unknown".to_vec())),
    }
}
pub const N_TAB_ORDER: u8 = 3;
pub fn en_tab_order<'a>(s: &mut Src, b: &'a [u8]) -> (TabOrder, V) {
    match s.next() % 3 {
        0 => (TabOrder::RowOrder, V::Name(b"R".to_vec())),
        1 => (TabOrder::ColumnOrder, V::Name(b"C".to_vec())),
        _ => (TabOrder::StructureOrder, V::Name(b"S".to_vec())),
    }
}
pub const N_TRANSITION_STYLE: u8 = 12;
pub fn en_transition_style<'a>(s: &mut Src, b: &'a [u8]) -> (TransitionStyle, V) {
    match s.next() % 12 {
        0 => (TransitionStyle::Split, V::Name(b"Split".to_vec())),
        1 => (TransitionStyle::Blinds, V::Name(b"Blinds".to_vec())),
        2 => (TransitionStyle::Box, V::Name(b"Box".to_vec())),
        3 => (TransitionStyle::Wipe, V::Name(b"Wipe".to_vec())),
        4 => (TransitionStyle::Dissolve, V::Name(b"Dissolve".to_vec())),
        5 => (TransitionStyle::Glitter, V::Name(b"Glitter".to_vec())),
        6 => (TransitionStyle::R, V::Name(b"R".to_vec())),
        7 => (TransitionStyle::Fly, V::Name(b"Fly".to_vec())),
        8 => (TransitionStyle::Push, V::Name(b"Push".to_vec())),
        9 => (TransitionStyle::Cover, V::Name(b"Cover".to_vec())),
        10 => (TransitionStyle::Uncover, V::Name(b"Uncover".to_vec())),
        _ => (TransitionStyle::Fade, V::Name(b"Fade".to_vec())),
    }
}
pub const N_S_MASK_IN_DATA: u8 = 3;
pub fn en_s_mask_in_data<'a>(s: &mut Src, b: &'a [u8]) -> (SMaskInData, V) {
    match s.next() % 3 {
        0 => (SMaskInData::Ignore, V::Int(0)),
        1 => (SMaskInData::Use, V::Int(1)),
        _ => (SMaskInData::Preblended, V::Int(2)),
    }
}
pub const N_RENDITION_OPERATION: u8 = 5;
pub fn en_rendition_operation<'a>(s: &mut Src, b: &'a [u8]) -> (RenditionOperation, V) {
    match s.next() % 5 {
        0 => (RenditionOperation::Play, V::Int(0)),
        1 => (RenditionOperation::Stop, V::Int(1)),
        2 => (RenditionOperation::Pause, V::Int(2)),
        3 => (RenditionOperation::Resume, V::Int(3)),
        _ => (RenditionOperation::PlayOrResume, V::Int(4)),
    }
}
pub const N_TEXT_POSITION: u8 = 7;
pub fn en_text_position<'a>(s: &mut Src, b: &'a [u8]) -> (TextPosition, V) {
    match s.next() % 7 {
        0 => (TextPosition::CaptionOnly, V::Int(0)),
        1 => (TextPosition::IconOnly, V::Int(1)),
        2 => (TextPosition::Below, V::Int(2)),
        3 => (TextPosition::Above, V::Int(3)),
        4 => (TextPosition::Right, V::Int(4)),
        5 => (TextPosition::Left, V::Int(5)),
        _ => (TextPosition::Overlaid, V::Int(6)),
    }
}
pub const N_QUADDING: u8 = 3;
pub fn en_quadding<'a>(s: &mut Src, b: &'a [u8]) -> (Quadding, V) {
    match s.next() % 3 {
        0 => (Quadding::Left, V::Int(0)),
        1 => (Quadding::Center, V::Int(1)),
        _ => (Quadding::Right, V::Int(2)),
    }
}
pub const N_FORM_ACTION_FLAGS: u8 = 13;
/// The first byte says how many flags are set one by one.
pub fn fl_form_action_flags(s: &mut Src) -> (FormActionFlags, i32) {
    let (mut f, mut e) = (FormActionFlags::empty(), 0);
    for _ in 0..s.next() % 8 {
        match s.next() % 13 {
            0 => { f |= FormActionFlags::INCLUDE_EXCLUDE; e |= 1i32; }
            1 => { f |= FormActionFlags::INCLUDE_NO_VALUE_FIELDS; e |= 2i32; }
            2 => { f |= FormActionFlags::EXPORT_FORMAT; e |= 4i32; }
            3 => { f |= FormActionFlags::GET_METHOD; e |= 8i32; }
            4 => { f |= FormActionFlags::SUBMIT_COORDINATES; e |= 16i32; }
            5 => { f |= FormActionFlags::XFDF; e |= 32i32; }
            6 => { f |= FormActionFlags::INCLUDE_APPEND_SAVES; e |= 64i32; }
            7 => { f |= FormActionFlags::INCLUDE_ANNOTATIONS; e |= 128i32; }
            8 => { f |= FormActionFlags::SUBMIT_PDF; e |= 256i32; }
            9 => { f |= FormActionFlags::CANONICAL_FORMAT; e |= 512i32; }
            10 => { f |= FormActionFlags::EXCLUDE_NON_USER_ANNOTS; e |= 1024i32; }
            11 => { f |= FormActionFlags::EXCLUDE_F_KEY; e |= 2048i32; }
            _ => { f |= FormActionFlags::EMBED_FORM; e |= 8192i32; }
        }
    }
    (f, e)
}
pub const N_ANNOTATION_FLAGS: u8 = 10;
/// The first byte says how many flags are set one by one.
pub fn fl_annotation_flags(s: &mut Src) -> (AnnotationFlags, i32) {
    let (mut f, mut e) = (AnnotationFlags::empty(), 0);
    for _ in 0..s.next() % 8 {
        match s.next() % 10 {
            0 => { f |= AnnotationFlags::INVISIBLE; e |= 1i32; }
            1 => { f |= AnnotationFlags::HIDDEN; e |= 2i32; }
            2 => { f |= AnnotationFlags::PRINT; e |= 4i32; }
            3 => { f |= AnnotationFlags::NO_ZOOM; e |= 8i32; }
            4 => { f |= AnnotationFlags::NO_ROTATE; e |= 16i32; }
            5 => { f |= AnnotationFlags::NO_VIEW; e |= 32i32; }
            6 => { f |= AnnotationFlags::READ_ONLY; e |= 64i32; }
            7 => { f |= AnnotationFlags::LOCKED; e |= 128i32; }
            8 => { f |= AnnotationFlags::TOGGLE_NO_VIEW; e |= 256i32; }
            _ => { f |= AnnotationFlags::LOCKED_CONTENTS; e |= 512i32; }
        }
    }
    (f, e)
}
pub const N_FONT_FLAGS: u8 = 9;
/// The first byte says how many flags are set one by one.
pub fn fl_font_flags(s: &mut Src) -> (FontFlags, i32) {
    let (mut f, mut e) = (FontFlags::empty(), 0);
    for _ in 0..s.next() % 8 {
        match s.next() % 9 {
            0 => { f |= FontFlags::FIXED_PITCH; e |= 1i32; }
            1 => { f |= FontFlags::SERIF; e |= 2i32; }
            2 => { f |= FontFlags::SYMBOLIC; e |= 4i32; }
            3 => { f |= FontFlags::SCRIPT; e |= 8i32; }
            4 => { f |= FontFlags::NON_SYMBOLIC; e |= 32i32; }
            5 => { f |= FontFlags::ITALIC; e |= 64i32; }
            6 => { f |= FontFlags::ALL_CAP; e |= 65536i32; }
            7 => { f |= FontFlags::SMALL_CAP; e |= 131072i32; }
            _ => { f |= FontFlags::FORCE_BOLD; e |= 262144i32; }
        }
    }
    (f, e)
}
pub const N_SIG_FLAGS: u8 = 2;
/// The first byte says how many flags are set one by one.
pub fn fl_sig_flags(s: &mut Src) -> (SigFlags, i32) {
    let (mut f, mut e) = (SigFlags::empty(), 0);
    for _ in 0..s.next() % 8 {
        match s.next() % 2 {
            0 => { f |= SigFlags::SIGNATURES_EXIST; e |= 1i32; }
            _ => { f |= SigFlags::APPEND_ONLY; e |= 2i32; }
        }
    }
    (f, e)
}
pub const N_SIGNATURE_SEED_VALUE_FLAGS: u8 = 9;
/// The first byte says how many flags are set one by one.
pub fn fl_signature_seed_value_flags(s: &mut Src) -> (SignatureSeedValueFlags, i32) {
    let (mut f, mut e) = (SignatureSeedValueFlags::empty(), 0);
    for _ in 0..s.next() % 8 {
        match s.next() % 9 {
            0 => { f |= SignatureSeedValueFlags::FILTER; e |= 1i32; }
            1 => { f |= SignatureSeedValueFlags::SUB_FILTER; e |= 2i32; }
            2 => { f |= SignatureSeedValueFlags::VERSION; e |= 4i32; }
            3 => { f |= SignatureSeedValueFlags::REASONS; e |= 8i32; }
            4 => { f |= SignatureSeedValueFlags::LEGAL_ATTESTATION; e |= 16i32; }
            5 => { f |= SignatureSeedValueFlags::ADD_REV_INFO; e |= 32i32; }
            6 => { f |= SignatureSeedValueFlags::DIGEST_METHOD; e |= 64i32; }
            7 => { f |= SignatureSeedValueFlags::LOCK_DOCUMENT; e |= 128i32; }
            _ => { f |= SignatureSeedValueFlags::APPEARANCE_FILTER; e |= 256i32; }
        }
    }
    (f, e)
}
pub const N_CERTIFICATE_SEED_VALUE_FLAGS: u8 = 6;
/// The first byte says how many flags are set one by one.
pub fn fl_certificate_seed_value_flags(s: &mut Src) -> (CertificateSeedValueFlags, i32) {
    let (mut f, mut e) = (CertificateSeedValueFlags::empty(), 0);
    for _ in 0..s.next() % 8 {
        match s.next() % 6 {
            0 => { f |= CertificateSeedValueFlags::SUBJECT; e |= 1i32; }
            1 => { f |= CertificateSeedValueFlags::ISSUER; e |= 2i32; }
            2 => { f |= CertificateSeedValueFlags::OID; e |= 4i32; }
            3 => { f |= CertificateSeedValueFlags::SUBJECT_DN; e |= 8i32; }
            4 => { f |= CertificateSeedValueFlags::KEY_USAGE; e |= 32i32; }
            _ => { f |= CertificateSeedValueFlags::URL; e |= 64i32; }
        }
    }
    (f, e)
}
pub const N_FIELD_FLAGS: u8 = 19;
/// The first byte says how many flags are set one by one.
pub fn fl_field_flags(s: &mut Src) -> (FieldFlags, i32) {
    let (mut f, mut e) = (FieldFlags::empty(), 0);
    for _ in 0..s.next() % 8 {
        match s.next() % 19 {
            0 => { f |= FieldFlags::READ_ONLY; e |= 1i32; }
            1 => { f |= FieldFlags::REQUIRED; e |= 2i32; }
            2 => { f |= FieldFlags::NO_EXPORT; e |= 4i32; }
            3 => { f |= FieldFlags::DO_NOT_SPELL_CHECK; e |= 4194304i32; }
            4 => { f |= FieldFlags::NO_TOGGLE_TO_OFF; e |= 16384i32; }
            5 => { f |= FieldFlags::RADIO; e |= 32768i32; }
            6 => { f |= FieldFlags::PUSHBUTTON; e |= 65536i32; }
            7 => { f |= FieldFlags::RADIOS_IN_UNISON; e |= 33554432i32; }
            8 => { f |= FieldFlags::MULTILINE; e |= 4096i32; }
            9 => { f |= FieldFlags::PASSWORD; e |= 8192i32; }
            10 => { f |= FieldFlags::FILE_SELECT; e |= 1048576i32; }
            11 => { f |= FieldFlags::DO_NOT_SCROLL; e |= 8388608i32; }
            12 => { f |= FieldFlags::COMB; e |= 16777216i32; }
            13 => { f |= FieldFlags::RICH_TEXT; e |= 33554432i32; }
            14 => { f |= FieldFlags::COMBO; e |= 131072i32; }
            15 => { f |= FieldFlags::EDIT; e |= 262144i32; }
            16 => { f |= FieldFlags::SORT; e |= 524288i32; }
            17 => { f |= FieldFlags::MULTI_SELECT; e |= 2097152i32; }
            _ => { f |= FieldFlags::COMMIT_ON_SEL_CHANGE; e |= 67108864i32; }
        }
    }
    (f, e)
}
pub const N_OUTLINE_ITEM_FLAGS: u8 = 2;
/// The first byte says how many flags are set one by one.
pub fn fl_outline_item_flags(s: &mut Src) -> (OutlineItemFlags, i32) {
    let (mut f, mut e) = (OutlineItemFlags::empty(), 0);
    for _ in 0..s.next() % 8 {
        match s.next() % 2 {
            0 => { f |= OutlineItemFlags::ITALIC; e |= 1i32; }
            _ => { f |= OutlineItemFlags::BOLD; e |= 2i32; }
        }
    }
    (f, e)
}
pub const N_SET_ACTION: usize = 14;
pub const NAMES_ACTION: &[&str] = &["action_type", "destination", "destination_named", "file_spec", "new_window", "uri", "is_map", "js_string", "js_stream", "fields", "form_flags", "operation", "annotation", "rendition"];
fn arm_action(w: &mut Action<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let b0 = s.string(); let (x0, e0) = en_action_type(s, &b0); w.action_type(x0); out.push((b"S".to_vec(), e0.clone())); }
        1 => {  let e = { let u = w.destination(); special::sub_destination(u, s, d) }; out.push((b"D".to_vec(), e)); }
        2 => { let x0 = s.string(); w.destination_named(Name(&x0)); out.push((b"D".to_vec(), V::Name(x0.clone()))); }
        3 => {  let e = { let u = w.file_spec(); sub_file_spec(u, s, d) }; out.push((b"F".to_vec(), e)); }
        4 => { let x0 = s.next() % 2 == 1; w.new_window(x0); out.push((b"NewWindow".to_vec(), V::Bool(x0))); }
        5 => { let x0 = s.string(); w.uri(Str(&x0)); out.push((b"URI".to_vec(), V::Str(x0.clone()))); }
        6 => { let x0 = s.next() % 2 == 1; w.is_map(x0); out.push((b"IsMap".to_vec(), V::Bool(x0))); }
        7 => { let x0 = text(s); w.js_string(TextStr(&x0)); out.push((b"JS".to_vec(), V::Text(x0.clone()))); }
        8 => { let x0 = s.reference(); w.js_stream(Ref::new(x0)); out.push((b"JS".to_vec(), V::Ref(x0))); }
        9 => {  let e = { let u = w.fields(); sub_fields(u, s, d) }; out.push((b"Fields".to_vec(), e)); }
        10 => { let (x0, e0) = fl_form_action_flags(s); w.form_flags(x0); out.push((b"Flags".to_vec(), V::Int(e0))); }
        11 => { let b0 = s.string(); let (x0, e0) = en_rendition_operation(s, &b0); w.operation(x0); out.push((b"OP".to_vec(), e0.clone())); }
        12 => { let x0 = s.reference(); w.annotation(Ref::new(x0)); out.push((b"AN".to_vec(), V::Ref(x0))); }
        13 => {  let e = { let u = w.rendition(); sub_rendition(u, s, d) }; out.push((b"R".to_vec(), e)); }
        _ => {}
    }
}
pub fn fill_action(w: &mut Action<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_ACTION > 0 { arm_action(w, k % N_SET_ACTION, s, d - 1, out); }
    }
}
pub fn init_action() -> Entries { vec![(b"Type".to_vec(), V::Name(b"Action".to_vec()))] }
pub fn sub_action(mut w: Action<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_action();
    fill_action(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_FIELDS: usize = 4;
pub const NAMES_FIELDS: &[&str] = &["id", "ids", "name", "names"];
fn arm_fields(w: &mut Fields<'_>, k: usize, s: &mut Src, d: usize, out: &mut Vec<V>) {
    match k {
        0 => { let x0 = s.reference(); w.id(Ref::new(x0)); out.extend([vec![V::Ref(x0)]].concat()); }
        1 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.reference()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Ref(*r)).collect(); w.ids(r0.iter().map(|r| Ref::new(*r))); out.extend([e0].concat()); }
        2 => { let x0 = text(s); w.name(TextStr(&x0)); out.extend([vec![V::Text(x0.clone())]].concat()); }
        3 => { let r0: Vec<_> = (0..s.count(5)).map(|_| text(s)).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Text(r.clone())).collect(); w.names(r0.iter().map(|r| TextStr(r))); out.extend([e0].concat()); }
        _ => {}
    }
}
pub fn fill_fields(w: &mut Fields<'_>, s: &mut Src, d: usize, out: &mut Vec<V>) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_FIELDS > 0 { arm_fields(w, k % N_SET_FIELDS, s, d - 1, out); }
    }
}
pub fn init_fields() -> Vec<V> { vec![] }
pub fn sub_fields(mut w: Fields<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_fields();
    fill_fields(&mut w, s, d, &mut out);
    V::Arr(out)
}
pub const N_SET_ADDITIONAL_ACTIONS: usize = 21;
pub const NAMES_ADDITIONAL_ACTIONS: &[&str] = &["annot_curser_enter", "annot_cursor_exit", "annot_mouse_press", "annot_mouse_release", "annot_page_open", "annot_page_close", "annot_page_visible", "annot_page_invisible", "widget_focus", "widget_focus_loss", "page_open", "page_close", "form_calculate_partial", "form_format", "form_validate", "form_calculate", "cat_before_close", "cat_before_save", "cat_after_save", "cat_before_print", "cat_after_print"];
fn arm_additional_actions(w: &mut AdditionalActions<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => {  let e = { let u = w.annot_curser_enter(); sub_action(u, s, d) }; out.push((b"E".to_vec(), e)); }
        1 => {  let e = { let u = w.annot_cursor_exit(); sub_action(u, s, d) }; out.push((b"X".to_vec(), e)); }
        2 => {  let e = { let u = w.annot_mouse_press(); sub_action(u, s, d) }; out.push((b"D".to_vec(), e)); }
        3 => {  let e = { let u = w.annot_mouse_release(); sub_action(u, s, d) }; out.push((b"U".to_vec(), e)); }
        4 => {  let e = { let u = w.annot_page_open(); sub_action(u, s, d) }; out.push((b"PO".to_vec(), e)); }
        5 => {  let e = { let u = w.annot_page_close(); sub_action(u, s, d) }; out.push((b"PC".to_vec(), e)); }
        6 => {  let e = { let u = w.annot_page_visible(); sub_action(u, s, d) }; out.push((b"PV".to_vec(), e)); }
        7 => {  let e = { let u = w.annot_page_invisible(); sub_action(u, s, d) }; out.push((b"PI".to_vec(), e)); }
        8 => {  let e = { let u = w.widget_focus(); sub_action(u, s, d) }; out.push((b"Fo".to_vec(), e)); }
        9 => {  let e = { let u = w.widget_focus_loss(); sub_action(u, s, d) }; out.push((b"Bl".to_vec(), e)); }
        10 => {  let e = { let u = w.page_open(); sub_action(u, s, d) }; out.push((b"O".to_vec(), e)); }
        11 => {  let e = { let u = w.page_close(); sub_action(u, s, d) }; out.push((b"C".to_vec(), e)); }
        12 => {  let e = { let u = w.form_calculate_partial(); sub_action(u, s, d) }; out.push((b"K".to_vec(), e)); }
        13 => {  let e = { let u = w.form_format(); sub_action(u, s, d) }; out.push((b"F".to_vec(), e)); }
        14 => {  let e = { let u = w.form_validate(); sub_action(u, s, d) }; out.push((b"V".to_vec(), e)); }
        15 => {  let e = { let u = w.form_calculate(); sub_action(u, s, d) }; out.push((b"C".to_vec(), e)); }
        16 => {  let e = { let u = w.cat_before_close(); sub_action(u, s, d) }; out.push((b"WC".to_vec(), e)); }
        17 => {  let e = { let u = w.cat_before_save(); sub_action(u, s, d) }; out.push((b"WS".to_vec(), e)); }
        18 => {  let e = { let u = w.cat_after_save(); sub_action(u, s, d) }; out.push((b"DS".to_vec(), e)); }
        19 => {  let e = { let u = w.cat_before_print(); sub_action(u, s, d) }; out.push((b"WP".to_vec(), e)); }
        20 => {  let e = { let u = w.cat_after_print(); sub_action(u, s, d) }; out.push((b"DP".to_vec(), e)); }
        _ => {}
    }
}
pub fn fill_additional_actions(w: &mut AdditionalActions<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_ADDITIONAL_ACTIONS > 0 { arm_additional_actions(w, k % N_SET_ADDITIONAL_ACTIONS, s, d - 1, out); }
    }
}
pub fn init_additional_actions() -> Entries { vec![] }
pub fn sub_additional_actions(mut w: AdditionalActions<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_additional_actions();
    fill_additional_actions(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_ANNOTATION: usize = 28;
pub const NAMES_ANNOTATION: &[&str] = &["subtype", "rect", "contents", "page", "name", "modified", "flags", "appearance", "appearance_state", "border_style", "color_transparent", "color_gray", "color_rgb", "color_cmyk", "struct_parent", "action", "additional_actions", "highlight", "author", "subject", "quad_points", "line_to", "file_spec", "icon", "appearance_characteristics", "parent", "associated_files", "border"];
fn arm_annotation(w: &mut Annotation<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let b0 = s.string(); let (x0, e0) = en_annotation_type(s, &b0); w.subtype(x0); out.push((b"Subtype".to_vec(), e0.clone())); }
        1 => { let x0 = [s.f32(), s.f32(), s.f32(), s.f32()]; w.rect(Rect::new(x0[0], x0[1], x0[2], x0[3])); out.push((b"Rect".to_vec(), V::Rect(x0))); }
        2 => { let x0 = text(s); w.contents(TextStr(&x0)); out.push((b"Contents".to_vec(), V::Text(x0.clone()))); }
        3 => { let x0 = s.reference(); w.page(Ref::new(x0)); out.push((b"P".to_vec(), V::Ref(x0))); }
        4 => { let x0 = text(s); w.name(TextStr(&x0)); out.push((b"NM".to_vec(), V::Text(x0.clone()))); }
        5 => { let (x0, e0) = date(s); w.modified(x0); out.push((b"M".to_vec(), e0)); }
        6 => { let (x0, e0) = fl_annotation_flags(s); w.flags(x0); out.push((b"F".to_vec(), V::Int(e0))); }
        7 => {  let e = { let u = w.appearance(); sub_appearance(u, s, d) }; out.push((b"AP".to_vec(), e)); }
        8 => { let x0 = s.string(); w.appearance_state(Name(&x0)); out.push((b"AS".to_vec(), V::Name(x0.clone()))); }
        9 => {  let e = { let u = w.border_style(); sub_border_style(u, s, d) }; out.push((b"BS".to_vec(), e)); }
        10 => {  w.color_transparent(); out.push((b"C".to_vec(), V::Arr(vec![]))); }
        11 => { let x0 = s.f32(); w.color_gray(x0); out.push((b"C".to_vec(), V::Arr([vec![V::Real(x0)]].concat()))); }
        12 => { let x0 = s.f32(); let x1 = s.f32(); let x2 = s.f32(); w.color_rgb(x0, x1, x2); out.push((b"C".to_vec(), V::Arr([vec![V::Real(x0)], vec![V::Real(x1)], vec![V::Real(x2)]].concat()))); }
        13 => { let x0 = s.f32(); let x1 = s.f32(); let x2 = s.f32(); let x3 = s.f32(); w.color_cmyk(x0, x1, x2, x3); out.push((b"C".to_vec(), V::Arr([vec![V::Real(x0)], vec![V::Real(x1)], vec![V::Real(x2)], vec![V::Real(x3)]].concat()))); }
        14 => { let x0 = s.i32(); w.struct_parent(x0); out.push((b"StructParent".to_vec(), V::Int(x0))); }
        15 => {  let e = { let u = w.action(); sub_action(u, s, d) }; out.push((b"A".to_vec(), e)); }
        16 => {  let e = { let u = w.additional_actions(); sub_additional_actions(u, s, d) }; out.push((b"AA".to_vec(), e)); }
        17 => { let b0 = s.string(); let (x0, e0) = en_highlight_effect(s, &b0); w.highlight(x0); out.push((b"H".to_vec(), e0.clone())); }
        18 => { let x0 = text(s); w.author(TextStr(&x0)); out.push((b"T".to_vec(), V::Text(x0.clone()))); }
        19 => { let x0 = text(s); w.subject(TextStr(&x0)); out.push((b"Subj".to_vec(), V::Text(x0.clone()))); }
        20 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.f32()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.quad_points(r0.iter().map(|r| *r)); out.push((b"QuadPoints".to_vec(), V::Arr([e0].concat()))); }
        21 => { let x0 = s.f32(); let x1 = s.f32(); let x2 = s.f32(); let x3 = s.f32(); w.line_to(x0, x1, x2, x3); out.push((b"L".to_vec(), V::Arr([vec![V::Real(x0)], vec![V::Real(x1)], vec![V::Real(x2)], vec![V::Real(x3)]].concat()))); }
        22 => {  let e = { let u = w.file_spec(); sub_file_spec(u, s, d) }; out.push((b"FS".to_vec(), e)); }
        23 => { let b0 = s.string(); let (x0, e0) = en_annotation_icon(s, &b0); w.icon(x0); out.push((b"Name".to_vec(), e0.clone())); }
        24 => {  let e = { let u = w.appearance_characteristics(); sub_appearance_characteristics(u, s, d) }; out.push((b"MK".to_vec(), e)); }
        25 => { let x0 = s.reference(); w.parent(Ref::new(x0)); out.push((b"Parent".to_vec(), V::Ref(x0))); }
        26 => {  let e = { let u = w.associated_files(); special::typed_array(u, s, d, |u, s, d| { let u = u.push(); sub_file_spec(u, s, d) }) }; out.push((b"AF".to_vec(), e)); }
        27 => special::annotation_border(w, s, d, out),
        _ => {}
    }
}
pub fn fill_annotation(w: &mut Annotation<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_ANNOTATION > 0 { arm_annotation(w, k % N_SET_ANNOTATION, s, d - 1, out); }
    }
}
pub fn init_annotation() -> Entries { vec![(b"Type".to_vec(), V::Name(b"Annot".to_vec()))] }
pub fn sub_annotation(mut w: Annotation<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_annotation();
    fill_annotation(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_APPEARANCE_CHARACTERISTICS: usize = 17;
pub const NAMES_APPEARANCE_CHARACTERISTICS: &[&str] = &["rotate", "border_color_transparent", "border_color_gray", "border_color_rgb", "border_color_cymk", "background_color_transparent", "background_color_gray", "background_color_rgb", "background_color_cymk", "normal_caption", "rollover_caption", "alternate_caption", "normal_icon", "rollover_icon", "alternate_icon", "icon_fit", "text_position"];
fn arm_appearance_characteristics(w: &mut AppearanceCharacteristics<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = s.i32(); w.rotate(x0); out.push((b"R".to_vec(), V::Int(x0))); }
        1 => {  w.border_color_transparent(); out.push((b"BC".to_vec(), V::Arr(vec![]))); }
        2 => { let x0 = s.f32(); w.border_color_gray(x0); out.push((b"BC".to_vec(), V::Arr([vec![V::Real(x0)]].concat()))); }
        3 => { let x0 = s.f32(); let x1 = s.f32(); let x2 = s.f32(); w.border_color_rgb(x0, x1, x2); out.push((b"BC".to_vec(), V::Arr([vec![V::Real(x0)], vec![V::Real(x1)], vec![V::Real(x2)]].concat()))); }
        4 => { let x0 = s.f32(); let x1 = s.f32(); let x2 = s.f32(); let x3 = s.f32(); w.border_color_cymk(x0, x1, x2, x3); out.push((b"BC".to_vec(), V::Arr([vec![V::Real(x0)], vec![V::Real(x2)], vec![V::Real(x1)], vec![V::Real(x3)]].concat()))); }
        5 => {  w.background_color_transparent(); out.push((b"BG".to_vec(), V::Arr(vec![]))); }
        6 => { let x0 = s.f32(); w.background_color_gray(x0); out.push((b"BG".to_vec(), V::Arr([vec![V::Real(x0)]].concat()))); }
        7 => { let x0 = s.f32(); let x1 = s.f32(); let x2 = s.f32(); w.background_color_rgb(x0, x1, x2); out.push((b"BG".to_vec(), V::Arr([vec![V::Real(x0)], vec![V::Real(x1)], vec![V::Real(x2)]].concat()))); }
        8 => { let x0 = s.f32(); let x1 = s.f32(); let x2 = s.f32(); let x3 = s.f32(); w.background_color_cymk(x0, x1, x2, x3); out.push((b"BG".to_vec(), V::Arr([vec![V::Real(x0)], vec![V::Real(x2)], vec![V::Real(x1)], vec![V::Real(x3)]].concat()))); }
        9 => { let x0 = text(s); w.normal_caption(TextStr(&x0)); out.push((b"CA".to_vec(), V::Text(x0.clone()))); }
        10 => { let x0 = text(s); w.rollover_caption(TextStr(&x0)); out.push((b"RC".to_vec(), V::Text(x0.clone()))); }
        11 => { let x0 = text(s); w.alternate_caption(TextStr(&x0)); out.push((b"AC".to_vec(), V::Text(x0.clone()))); }
        12 => { let x0 = s.reference(); w.normal_icon(Ref::new(x0)); out.push((b"I".to_vec(), V::Ref(x0))); }
        13 => { let x0 = s.reference(); w.rollover_icon(Ref::new(x0)); out.push((b"RI".to_vec(), V::Ref(x0))); }
        14 => { let x0 = s.reference(); w.alternate_icon(Ref::new(x0)); out.push((b"IX".to_vec(), V::Ref(x0))); }
        15 => {  let e = { let u = w.icon_fit(); sub_icon_fit(u, s, d) }; out.push((b"IF".to_vec(), e)); }
        16 => { let b0 = s.string(); let (x0, e0) = en_text_position(s, &b0); w.text_position(x0); out.push((b"TP".to_vec(), e0.clone())); }
        _ => {}
    }
}
pub fn fill_appearance_characteristics(w: &mut AppearanceCharacteristics<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_APPEARANCE_CHARACTERISTICS > 0 { arm_appearance_characteristics(w, k % N_SET_APPEARANCE_CHARACTERISTICS, s, d - 1, out); }
    }
}
pub fn init_appearance_characteristics() -> Entries { vec![] }
pub fn sub_appearance_characteristics(mut w: AppearanceCharacteristics<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_appearance_characteristics();
    fill_appearance_characteristics(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_ICON_FIT: usize = 4;
pub const NAMES_ICON_FIT: &[&str] = &["scale", "scale_type", "leftover_space", "fit_bounds"];
fn arm_icon_fit(w: &mut IconFit<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let b0 = s.string(); let (x0, e0) = en_icon_scale(s, &b0); w.scale(x0); out.push((b"SW".to_vec(), e0.clone())); }
        1 => { let b0 = s.string(); let (x0, e0) = en_icon_scale_type(s, &b0); w.scale_type(x0); out.push((b"S".to_vec(), e0.clone())); }
        2 => { let x0 = s.f32(); let x1 = s.f32(); w.leftover_space(x0, x1); out.push((b"A".to_vec(), V::Arr([vec![V::Real(x0)], vec![V::Real(x1)]].concat()))); }
        3 => { let x0 = s.next() % 2 == 1; w.fit_bounds(x0); out.push((b"FB".to_vec(), V::Bool(x0))); }
        _ => {}
    }
}
pub fn fill_icon_fit(w: &mut IconFit<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_ICON_FIT > 0 { arm_icon_fit(w, k % N_SET_ICON_FIT, s, d - 1, out); }
    }
}
pub fn init_icon_fit() -> Entries { vec![] }
pub fn sub_icon_fit(mut w: IconFit<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_icon_fit();
    fill_icon_fit(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_APPEARANCE: usize = 3;
pub const NAMES_APPEARANCE: &[&str] = &["normal", "rollover", "alternate"];
fn arm_appearance(w: &mut Appearance<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => {  let e = { let u = w.normal(); special::sub_appearance_entry(u, s, d) }; out.push((b"N".to_vec(), e)); }
        1 => {  let e = { let u = w.rollover(); special::sub_appearance_entry(u, s, d) }; out.push((b"R".to_vec(), e)); }
        2 => {  let e = { let u = w.alternate(); special::sub_appearance_entry(u, s, d) }; out.push((b"D".to_vec(), e)); }
        _ => {}
    }
}
pub fn fill_appearance(w: &mut Appearance<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_APPEARANCE > 0 { arm_appearance(w, k % N_SET_APPEARANCE, s, d - 1, out); }
    }
}
pub fn init_appearance() -> Entries { vec![] }
pub fn sub_appearance(mut w: Appearance<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_appearance();
    fill_appearance(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_BORDER_STYLE: usize = 3;
pub const NAMES_BORDER_STYLE: &[&str] = &["width", "style", "dashes"];
fn arm_border_style(w: &mut BorderStyle<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = s.f32(); w.width(x0); out.push((b"W".to_vec(), V::Real(x0))); }
        1 => { let b0 = s.string(); let (x0, e0) = en_border_type(s, &b0); w.style(x0); out.push((b"S".to_vec(), e0.clone())); }
        2 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.f32()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.dashes(r0.iter().map(|r| *r)); out.push((b"D".to_vec(), V::Arr([e0].concat()))); }
        _ => {}
    }
}
pub fn fill_border_style(w: &mut BorderStyle<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_BORDER_STYLE > 0 { arm_border_style(w, k % N_SET_BORDER_STYLE, s, d - 1, out); }
    }
}
pub fn init_border_style() -> Entries { vec![(b"Type".to_vec(), V::Name(b"Border".to_vec()))] }
pub fn sub_border_style(mut w: BorderStyle<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_border_style();
    fill_border_style(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_USER_PROPERTY: usize = 4;
pub const NAMES_USER_PROPERTY: &[&str] = &["name", "value", "format", "hidden"];
fn arm_user_property(w: &mut UserProperty<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = text(s); w.name(TextStr(&x0)); out.push((b"N".to_vec(), V::Text(x0.clone()))); }
        1 => {  let e = { let u = w.value(); special::sub_obj(u, s, d) }; out.push((b"V".to_vec(), e)); }
        2 => { let x0 = text(s); w.format(TextStr(&x0)); out.push((b"F".to_vec(), V::Text(x0.clone()))); }
        3 => { let x0 = s.next() % 2 == 1; w.hidden(x0); out.push((b"H".to_vec(), V::Bool(x0))); }
        _ => {}
    }
}
pub fn fill_user_property(w: &mut UserProperty<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_USER_PROPERTY > 0 { arm_user_property(w, k % N_SET_USER_PROPERTY, s, d - 1, out); }
    }
}
pub fn init_user_property() -> Entries { vec![] }
pub fn sub_user_property(mut w: UserProperty<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_user_property();
    fill_user_property(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_LAYOUT_ATTRIBUTES: usize = 33;
pub const NAMES_LAYOUT_ATTRIBUTES: &[&str] = &["placement", "writing_mode", "background_color", "color", "space_before", "space_after", "start_indent", "end_indent", "text_indent", "text_align", "width", "height", "bbox", "block_align", "inline_align", "column_count", "column_widths", "column_gap", "baseline_shift", "text_position", "text_decoration_type", "text_decoration_color", "text_decoration_thickness", "ruby_align", "ruby_position", "border_color", "border_style", "border_thickness", "padding", "table_border_style", "table_padding", "line_height", "glyph_orientation_vertical"];
fn arm_layout_attributes(w: &mut LayoutAttributes<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let b0 = s.string(); let (x0, e0) = en_placement(s, &b0); w.placement(x0); out.push((b"Placement".to_vec(), e0.clone())); }
        1 => { let b0 = s.string(); let (x0, e0) = en_writing_mode(s, &b0); w.writing_mode(x0); out.push((b"WritingMode".to_vec(), e0.clone())); }
        2 => { let r0: Vec<_> = s.floats(3); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.background_color(<[_; 3]>::try_from(r0.iter().map(|r| *r).collect::<Vec<_>>()).ok().unwrap()); out.push((b"BackgroundColor".to_vec(), V::Arr([e0].concat()))); }
        3 => { let r0: Vec<_> = s.floats(3); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.color(<[_; 3]>::try_from(r0.iter().map(|r| *r).collect::<Vec<_>>()).ok().unwrap()); out.push((b"Color".to_vec(), V::Arr([e0].concat()))); }
        4 => { let x0 = s.f32(); w.space_before(x0); out.push((b"SpaceBefore".to_vec(), V::Real(x0))); }
        5 => { let x0 = s.f32(); w.space_after(x0); out.push((b"SpaceAfter".to_vec(), V::Real(x0))); }
        6 => { let x0 = s.f32(); w.start_indent(x0); out.push((b"StartIndent".to_vec(), V::Real(x0))); }
        7 => { let x0 = s.f32(); w.end_indent(x0); out.push((b"EndIndent".to_vec(), V::Real(x0))); }
        8 => { let x0 = s.f32(); w.text_indent(x0); out.push((b"TextIndent".to_vec(), V::Real(x0))); }
        9 => { let b0 = s.string(); let (x0, e0) = en_text_align(s, &b0); w.text_align(x0); out.push((b"TextAlign".to_vec(), e0.clone())); }
        10 => { let x0 = s.f32(); w.width(x0); out.push((b"Width".to_vec(), V::Real(x0))); }
        11 => { let x0 = s.f32(); w.height(x0); out.push((b"Height".to_vec(), V::Real(x0))); }
        12 => { let x0 = [s.f32(), s.f32(), s.f32(), s.f32()]; w.bbox(Rect::new(x0[0], x0[1], x0[2], x0[3])); out.push((b"BBox".to_vec(), V::Rect(x0))); }
        13 => { let b0 = s.string(); let (x0, e0) = en_block_align(s, &b0); w.block_align(x0); out.push((b"BlockAlign".to_vec(), e0.clone())); }
        14 => { let b0 = s.string(); let (x0, e0) = en_inline_align(s, &b0); w.inline_align(x0); out.push((b"InlineAlign".to_vec(), e0.clone())); }
        15 => { let x0 = s.i32(); w.column_count(x0); out.push((b"ColumnCount".to_vec(), V::Int(x0))); }
        16 => {  let e = { let u = w.column_widths(); special::sub_track_sizes(u, s, d) }; out.push((b"ColumnWidths".to_vec(), e)); }
        17 => {  let e = { let u = w.column_gap(); special::sub_track_sizes(u, s, d) }; out.push((b"ColumnGap".to_vec(), e)); }
        18 => { let x0 = s.f32(); w.baseline_shift(x0); out.push((b"BaselineShift".to_vec(), V::Real(x0))); }
        19 => { let b0 = s.string(); let (x0, e0) = en_layout_text_position(s, &b0); w.text_position(x0); out.push((b"TextPosition".to_vec(), e0.clone())); }
        20 => { let b0 = s.string(); let (x0, e0) = en_text_decoration_type(s, &b0); w.text_decoration_type(x0); out.push((b"TextDecorationType".to_vec(), e0.clone())); }
        21 => { let r0: Vec<_> = s.floats(3); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.text_decoration_color(<[_; 3]>::try_from(r0.iter().map(|r| *r).collect::<Vec<_>>()).ok().unwrap()); out.push((b"TextDecorationColor".to_vec(), V::Arr([e0].concat()))); }
        22 => { let x0 = s.f32(); w.text_decoration_thickness(x0); out.push((b"TextDecorationThickness".to_vec(), V::Real(x0))); }
        23 => { let b0 = s.string(); let (x0, e0) = en_ruby_align(s, &b0); w.ruby_align(x0); out.push((b"RubyAlign".to_vec(), e0.clone())); }
        24 => { let b0 = s.string(); let (x0, e0) = en_ruby_position(s, &b0); w.ruby_position(x0); out.push((b"RubyPosition".to_vec(), e0.clone())); }
        25 => special::layout_attributes_border_color(w, s, d, out),
        26 => special::layout_attributes_border_style(w, s, d, out),
        27 => special::layout_attributes_border_thickness(w, s, d, out),
        28 => special::layout_attributes_padding(w, s, d, out),
        29 => special::layout_attributes_table_border_style(w, s, d, out),
        30 => special::layout_attributes_table_padding(w, s, d, out),
        31 => special::layout_attributes_line_height(w, s, d, out),
        32 => special::layout_attributes_glyph_orientation_vertical(w, s, d, out),
        _ => {}
    }
}
pub fn fill_layout_attributes(w: &mut LayoutAttributes<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_LAYOUT_ATTRIBUTES > 0 { arm_layout_attributes(w, k % N_SET_LAYOUT_ATTRIBUTES, s, d - 1, out); }
    }
}
pub fn init_layout_attributes() -> Entries { vec![(b"O".to_vec(), V::Name(b"Layout".to_vec()))] }
pub fn sub_layout_attributes(mut w: LayoutAttributes<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_layout_attributes();
    fill_layout_attributes(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_LIST_ATTRIBUTES: usize = 3;
pub const NAMES_LIST_ATTRIBUTES: &[&str] = &["list_numbering", "continued_list", "continued_from"];
fn arm_list_attributes(w: &mut ListAttributes<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let b0 = s.string(); let (x0, e0) = en_list_numbering(s, &b0); w.list_numbering(x0); out.push((b"ListNumbering".to_vec(), e0.clone())); }
        1 => { let x0 = s.next() % 2 == 1; w.continued_list(x0); out.push((b"ContinuedList".to_vec(), V::Bool(x0))); }
        2 => { let x0 = s.string(); w.continued_from(Str(&x0)); out.push((b"ContinuedFrom".to_vec(), V::Str(x0.clone()))); }
        _ => {}
    }
}
pub fn fill_list_attributes(w: &mut ListAttributes<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_LIST_ATTRIBUTES > 0 { arm_list_attributes(w, k % N_SET_LIST_ATTRIBUTES, s, d - 1, out); }
    }
}
pub fn init_list_attributes() -> Entries { vec![(b"O".to_vec(), V::Name(b"List".to_vec()))] }
pub fn sub_list_attributes(mut w: ListAttributes<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_list_attributes();
    fill_list_attributes(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_FIELD_ATTRIBUTES: usize = 3;
pub const NAMES_FIELD_ATTRIBUTES: &[&str] = &["role", "description", "checked"];
fn arm_field_attributes(w: &mut FieldAttributes<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let b0 = s.string(); let (x0, e0) = en_field_role(s, &b0); w.role(x0); out.push((b"Role".to_vec(), e0.clone())); }
        1 => { let x0 = text(s); w.description(TextStr(&x0)); out.push((b"Desc".to_vec(), V::Text(x0.clone()))); }
        2 => special::field_attributes_checked(w, s, d, out),
        _ => {}
    }
}
pub fn fill_field_attributes(w: &mut FieldAttributes<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_FIELD_ATTRIBUTES > 0 { arm_field_attributes(w, k % N_SET_FIELD_ATTRIBUTES, s, d - 1, out); }
    }
}
pub fn init_field_attributes() -> Entries { vec![(b"O".to_vec(), V::Name(b"PrintField".to_vec()))] }
pub fn sub_field_attributes(mut w: FieldAttributes<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_field_attributes();
    fill_field_attributes(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_TABLE_ATTRIBUTES: usize = 6;
pub const NAMES_TABLE_ATTRIBUTES: &[&str] = &["row_span", "col_span", "headers", "scope", "summary", "short"];
fn arm_table_attributes(w: &mut TableAttributes<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = s.i32(); w.row_span(x0); out.push((b"RowSpan".to_vec(), V::Int(x0))); }
        1 => { let x0 = s.i32(); w.col_span(x0); out.push((b"ColSpan".to_vec(), V::Int(x0))); }
        2 => {  let e = { let u = w.headers(); special::typed_array(u, s, d, |u, s, d| { let x = s.string(); let l: &'static [u8] = Box::leak(x.clone().into_boxed_slice()); let _ = d; u.item(Str(l)); V::Str(x) }) }; out.push((b"Headers".to_vec(), e)); }
        3 => { let b0 = s.string(); let (x0, e0) = en_table_header_scope(s, &b0); w.scope(x0); out.push((b"Scope".to_vec(), e0.clone())); }
        4 => { let x0 = text(s); w.summary(TextStr(&x0)); out.push((b"Summary".to_vec(), V::Text(x0.clone()))); }
        5 => { let x0 = text(s); w.short(TextStr(&x0)); out.push((b"Short".to_vec(), V::Text(x0.clone()))); }
        _ => {}
    }
}
pub fn fill_table_attributes(w: &mut TableAttributes<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_TABLE_ATTRIBUTES > 0 { arm_table_attributes(w, k % N_SET_TABLE_ATTRIBUTES, s, d - 1, out); }
    }
}
pub fn init_table_attributes() -> Entries { vec![(b"O".to_vec(), V::Name(b"Table".to_vec()))] }
pub fn sub_table_attributes(mut w: TableAttributes<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_table_attributes();
    fill_table_attributes(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_ARTIFACT_ATTRIBUTES: usize = 3;
pub const NAMES_ARTIFACT_ATTRIBUTES: &[&str] = &["artifact_type", "bbox", "subtype"];
fn arm_artifact_attributes(w: &mut ArtifactAttributes<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let b0 = s.string(); let (x0, e0) = en_artifact_type(s, &b0); w.artifact_type(x0); out.push((b"Type".to_vec(), e0.clone())); }
        1 => { let x0 = [s.f32(), s.f32(), s.f32(), s.f32()]; w.bbox(Rect::new(x0[0], x0[1], x0[2], x0[3])); out.push((b"BBox".to_vec(), V::Rect(x0))); }
        2 => { let b0 = s.string(); let (x0, e0) = en_artifact_subtype(s, &b0); w.subtype(x0); out.push((b"Subtype".to_vec(), e0.clone())); }
        _ => {}
    }
}
pub fn fill_artifact_attributes(w: &mut ArtifactAttributes<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_ARTIFACT_ATTRIBUTES > 0 { arm_artifact_attributes(w, k % N_SET_ARTIFACT_ATTRIBUTES, s, d - 1, out); }
    }
}
pub fn init_artifact_attributes() -> Entries { vec![(b"O".to_vec(), V::Name(b"Artifact".to_vec()))] }
pub fn sub_artifact_attributes(mut w: ArtifactAttributes<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_artifact_attributes();
    fill_artifact_attributes(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_F_E_NOTE_ATTRIBUTES: usize = 1;
pub const NAMES_F_E_NOTE_ATTRIBUTES: &[&str] = &["note_type"];
fn arm_f_e_note_attributes(w: &mut FENoteAttributes<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let b0 = s.string(); let (x0, e0) = en_note_type(s, &b0); w.note_type(x0); out.push((b"NoteType".to_vec(), e0.clone())); }
        _ => {}
    }
}
pub fn fill_f_e_note_attributes(w: &mut FENoteAttributes<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_F_E_NOTE_ATTRIBUTES > 0 { arm_f_e_note_attributes(w, k % N_SET_F_E_NOTE_ATTRIBUTES, s, d - 1, out); }
    }
}
pub fn init_f_e_note_attributes() -> Entries { vec![(b"O".to_vec(), V::Name(b"FENote".to_vec()))] }
pub fn sub_f_e_note_attributes(mut w: FENoteAttributes<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_f_e_note_attributes();
    fill_f_e_note_attributes(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_ICC_PROFILE: usize = 7;
pub const NAMES_ICC_PROFILE: &[&str] = &["alternate", "alternate_name", "range", "metadata", "filter", "decode_parms", "n"];
fn arm_icc_profile(w: &mut IccProfile<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => {  let e = { let u = w.alternate(); special::sub_color_space(u, s, d) }; out.push((b"Alternate".to_vec(), e)); }
        1 => { let x0 = s.string(); w.alternate_name(Name(&x0)); out.push((b"Alternate".to_vec(), V::Name(x0.clone()))); }
        2 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.f32()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.range(r0.iter().map(|r| *r)); out.push((b"Range".to_vec(), V::Arr([e0].concat()))); }
        3 => { let x0 = s.reference(); w.metadata(Ref::new(x0)); out.push((b"Metadata".to_vec(), V::Ref(x0))); }
        4 => { let b0 = s.string(); let (x0, e0) = en_filter(s, &b0); w.filter(x0); out.push((b"Filter".to_vec(), e0.clone())); }
        5 => {  let e = { let u = w.decode_parms(); sub_decode_parms(u, s, d) }; out.push((b"DecodeParms".to_vec(), e)); }
        6 => special::icc_profile_n(w, s, d, out),
        _ => {}
    }
}
pub fn fill_icc_profile(w: &mut IccProfile<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_ICC_PROFILE > 0 { arm_icc_profile(w, k % N_SET_ICC_PROFILE, s, d - 1, out); }
    }
}
pub fn init_icc_profile() -> Entries { vec![] }
pub fn sub_icc_profile(mut w: IccProfile<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_icc_profile();
    fill_icc_profile(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_DEVICE_N_ATTRS: usize = 4;
pub const NAMES_DEVICE_N_ATTRS: &[&str] = &["subtype", "colorants", "process", "mixing_hints"];
fn arm_device_n_attrs(w: &mut DeviceNAttrs<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let b0 = s.string(); let (x0, e0) = en_device_n_subtype(s, &b0); w.subtype(x0); out.push((b"Subtype".to_vec(), e0.clone())); }
        1 => {  let e = { let u = w.colorants(); special::typed_dict(u, s, d, |u, k, s, d| { let u = u.insert(Name(k)); special::sub_dict(u, s, d) }) }; out.push((b"Colorants".to_vec(), e)); }
        2 => {  let e = { let u = w.process(); sub_device_n_process(u, s, d) }; out.push((b"Process".to_vec(), e)); }
        3 => {  let e = { let u = w.mixing_hints(); sub_device_n_mixing_hints(u, s, d) }; out.push((b"MixingHints".to_vec(), e)); }
        _ => {}
    }
}
pub fn fill_device_n_attrs(w: &mut DeviceNAttrs<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_DEVICE_N_ATTRS > 0 { arm_device_n_attrs(w, k % N_SET_DEVICE_N_ATTRS, s, d - 1, out); }
    }
}
pub fn init_device_n_attrs() -> Entries { vec![] }
pub fn sub_device_n_attrs(mut w: DeviceNAttrs<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_device_n_attrs();
    fill_device_n_attrs(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_DEVICE_N_PROCESS: usize = 3;
pub const NAMES_DEVICE_N_PROCESS: &[&str] = &["color_space", "color_space_array", "components"];
fn arm_device_n_process(w: &mut DeviceNProcess<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = s.string(); w.color_space(Name(&x0)); out.push((b"ColorSpace".to_vec(), V::Name(x0.clone()))); }
        1 => {  let e = { let u = w.color_space_array(); special::sub_color_space(u, s, d) }; out.push((b"ColorSpace".to_vec(), e)); }
        2 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.string()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Name(r.clone())).collect(); w.components(r0.iter().map(|r| Name(r))); out.push((b"Components".to_vec(), V::Arr([e0].concat()))); }
        _ => {}
    }
}
pub fn fill_device_n_process(w: &mut DeviceNProcess<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_DEVICE_N_PROCESS > 0 { arm_device_n_process(w, k % N_SET_DEVICE_N_PROCESS, s, d - 1, out); }
    }
}
pub fn init_device_n_process() -> Entries { vec![] }
pub fn sub_device_n_process(mut w: DeviceNProcess<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_device_n_process();
    fill_device_n_process(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_DEVICE_N_MIXING_HINTS: usize = 3;
pub const NAMES_DEVICE_N_MIXING_HINTS: &[&str] = &["solidities", "printing_order", "dot_gain"];
fn arm_device_n_mixing_hints(w: &mut DeviceNMixingHints<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => {  let e = { let u = w.solidities(); special::typed_dict(u, s, d, |u, k, s, d| { let x = s.f32(); u.pair(Name(k), x); let _ = d; V::Real(x) }) }; out.push((b"Solidities".to_vec(), e)); }
        1 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.string()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Name(r.clone())).collect(); w.printing_order(r0.iter().map(|r| Name(r))); out.push((b"PrintingOrder".to_vec(), V::Arr([e0].concat()))); }
        2 => {  let e = { let u = w.dot_gain(); special::typed_dict(u, s, d, |u, k, s, d| { let x = s.f32(); u.pair(Name(k), x); let _ = d; V::Real(x) }) }; out.push((b"DotGain".to_vec(), e)); }
        _ => {}
    }
}
pub fn fill_device_n_mixing_hints(w: &mut DeviceNMixingHints<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_DEVICE_N_MIXING_HINTS > 0 { arm_device_n_mixing_hints(w, k % N_SET_DEVICE_N_MIXING_HINTS, s, d - 1, out); }
    }
}
pub fn init_device_n_mixing_hints() -> Entries { vec![] }
pub fn sub_device_n_mixing_hints(mut w: DeviceNMixingHints<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_device_n_mixing_hints();
    fill_device_n_mixing_hints(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_TILING_PATTERN: usize = 9;
pub const NAMES_TILING_PATTERN: &[&str] = &["paint_type", "tiling_type", "bbox", "resources", "matrix", "filter", "decode_parms", "x_step", "y_step"];
fn arm_tiling_pattern(w: &mut TilingPattern<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let b0 = s.string(); let (x0, e0) = en_paint_type(s, &b0); w.paint_type(x0); out.push((b"PaintType".to_vec(), e0.clone())); }
        1 => { let b0 = s.string(); let (x0, e0) = en_tiling_type(s, &b0); w.tiling_type(x0); out.push((b"TilingType".to_vec(), e0.clone())); }
        2 => { let x0 = [s.f32(), s.f32(), s.f32(), s.f32()]; w.bbox(Rect::new(x0[0], x0[1], x0[2], x0[3])); out.push((b"BBox".to_vec(), V::Rect(x0))); }
        3 => {  let e = { let u = w.resources(); sub_resources(u, s, d) }; out.push((b"Resources".to_vec(), e)); }
        4 => { let r0: Vec<_> = s.floats(6); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.matrix(<[_; 6]>::try_from(r0.iter().map(|r| *r).collect::<Vec<_>>()).ok().unwrap()); out.push((b"Matrix".to_vec(), V::Arr([e0].concat()))); }
        5 => { let b0 = s.string(); let (x0, e0) = en_filter(s, &b0); w.filter(x0); out.push((b"Filter".to_vec(), e0.clone())); }
        6 => {  let e = { let u = w.decode_parms(); sub_decode_parms(u, s, d) }; out.push((b"DecodeParms".to_vec(), e)); }
        7 => special::tiling_pattern_x_step(w, s, d, out),
        8 => special::tiling_pattern_y_step(w, s, d, out),
        _ => {}
    }
}
pub fn fill_tiling_pattern(w: &mut TilingPattern<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_TILING_PATTERN > 0 { arm_tiling_pattern(w, k % N_SET_TILING_PATTERN, s, d - 1, out); }
    }
}
pub fn init_tiling_pattern() -> Entries { vec![(b"Type".to_vec(), V::Name(b"Pattern".to_vec())), (b"PatternType".to_vec(), V::Int(1))] }
pub fn sub_tiling_pattern(mut w: TilingPattern<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_tiling_pattern();
    fill_tiling_pattern(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_SHADING_PATTERN: usize = 4;
pub const NAMES_SHADING_PATTERN: &[&str] = &["function_shading", "shading_ref", "matrix", "ext_graphics"];
fn arm_shading_pattern(w: &mut ShadingPattern<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => {  let e = { let u = w.function_shading(); sub_function_shading(u, s, d) }; out.push((b"Shading".to_vec(), e)); }
        1 => { let x0 = s.reference(); w.shading_ref(Ref::new(x0)); out.push((b"Shading".to_vec(), V::Ref(x0))); }
        2 => { let r0: Vec<_> = s.floats(6); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.matrix(<[_; 6]>::try_from(r0.iter().map(|r| *r).collect::<Vec<_>>()).ok().unwrap()); out.push((b"Matrix".to_vec(), V::Arr([e0].concat()))); }
        3 => {  let e = { let u = w.ext_graphics(); sub_ext_graphics_state(u, s, d) }; out.push((b"ExtGState".to_vec(), e)); }
        _ => {}
    }
}
pub fn fill_shading_pattern(w: &mut ShadingPattern<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_SHADING_PATTERN > 0 { arm_shading_pattern(w, k % N_SET_SHADING_PATTERN, s, d - 1, out); }
    }
}
pub fn init_shading_pattern() -> Entries { vec![(b"Type".to_vec(), V::Name(b"Pattern".to_vec())), (b"PatternType".to_vec(), V::Int(2))] }
pub fn sub_shading_pattern(mut w: ShadingPattern<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_shading_pattern();
    fill_shading_pattern(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_FUNCTION_SHADING: usize = 10;
pub const NAMES_FUNCTION_SHADING: &[&str] = &["shading_type", "color_space", "background", "bbox", "anti_alias", "domain", "matrix", "function", "coords", "extend"];
fn arm_function_shading(w: &mut FunctionShading<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let b0 = s.string(); let (x0, e0) = en_function_shading_type(s, &b0); w.shading_type(x0); out.push((b"ShadingType".to_vec(), e0.clone())); }
        1 => {  let e = { let u = w.color_space(); special::sub_color_space(u, s, d) }; out.push((b"ColorSpace".to_vec(), e)); }
        2 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.f32()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.background(r0.iter().map(|r| *r)); out.push((b"Background".to_vec(), V::Arr([e0].concat()))); }
        3 => { let x0 = [s.f32(), s.f32(), s.f32(), s.f32()]; w.bbox(Rect::new(x0[0], x0[1], x0[2], x0[3])); out.push((b"BBox".to_vec(), V::Rect(x0))); }
        4 => { let x0 = s.next() % 2 == 1; w.anti_alias(x0); out.push((b"AntiAlias".to_vec(), V::Bool(x0))); }
        5 => { let r0: Vec<_> = s.floats(4); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.domain(<[_; 4]>::try_from(r0.iter().map(|r| *r).collect::<Vec<_>>()).ok().unwrap()); out.push((b"Domain".to_vec(), V::Arr([e0].concat()))); }
        6 => { let r0: Vec<_> = s.floats(6); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.matrix(<[_; 6]>::try_from(r0.iter().map(|r| *r).collect::<Vec<_>>()).ok().unwrap()); out.push((b"Matrix".to_vec(), V::Arr([e0].concat()))); }
        7 => { let x0 = s.reference(); w.function(Ref::new(x0)); out.push((b"Function".to_vec(), V::Ref(x0))); }
        8 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.f32()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.coords(r0.iter().map(|r| *r)); out.push((b"Coords".to_vec(), V::Arr([e0].concat()))); }
        9 => { let r0: Vec<_> = (0..2).map(|_| s.next() % 2 == 1).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Bool(*r)).collect(); w.extend(<[_; 2]>::try_from(r0.iter().map(|r| *r).collect::<Vec<_>>()).ok().unwrap()); out.push((b"Extend".to_vec(), V::Arr([e0].concat()))); }
        _ => {}
    }
}
pub fn fill_function_shading(w: &mut FunctionShading<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_FUNCTION_SHADING > 0 { arm_function_shading(w, k % N_SET_FUNCTION_SHADING, s, d - 1, out); }
    }
}
pub fn init_function_shading() -> Entries { vec![] }
pub fn sub_function_shading(mut w: FunctionShading<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_function_shading();
    fill_function_shading(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_STREAM_SHADING: usize = 13;
pub const NAMES_STREAM_SHADING: &[&str] = &["shading_type", "color_space", "background", "bbox", "anti_alias", "function", "bits_per_coordinate", "bits_per_component", "bits_per_flag", "decode", "vertices_per_row", "filter", "decode_parms"];
fn arm_stream_shading(w: &mut StreamShading<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let b0 = s.string(); let (x0, e0) = en_stream_shading_type(s, &b0); w.shading_type(x0); out.push((b"ShadingType".to_vec(), e0.clone())); }
        1 => {  let e = { let u = w.color_space(); special::sub_color_space(u, s, d) }; out.push((b"ColorSpace".to_vec(), e)); }
        2 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.f32()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.background(r0.iter().map(|r| *r)); out.push((b"Background".to_vec(), V::Arr([e0].concat()))); }
        3 => { let x0 = [s.f32(), s.f32(), s.f32(), s.f32()]; w.bbox(Rect::new(x0[0], x0[1], x0[2], x0[3])); out.push((b"BBox".to_vec(), V::Rect(x0))); }
        4 => { let x0 = s.next() % 2 == 1; w.anti_alias(x0); out.push((b"AntiAlias".to_vec(), V::Bool(x0))); }
        5 => { let x0 = s.reference(); w.function(Ref::new(x0)); out.push((b"Function".to_vec(), V::Ref(x0))); }
        6 => { let x0 = s.i32(); w.bits_per_coordinate(x0); out.push((b"BitsPerCoordinate".to_vec(), V::Int(x0))); }
        7 => { let x0 = s.i32(); w.bits_per_component(x0); out.push((b"BitsPerComponent".to_vec(), V::Int(x0))); }
        8 => { let x0 = s.i32(); w.bits_per_flag(x0); out.push((b"BitsPerFlag".to_vec(), V::Int(x0))); }
        9 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.f32()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.decode(r0.iter().map(|r| *r)); out.push((b"Decode".to_vec(), V::Arr([e0].concat()))); }
        10 => { let x0 = s.i32(); w.vertices_per_row(x0); out.push((b"VerticesPerRow".to_vec(), V::Int(x0))); }
        11 => { let b0 = s.string(); let (x0, e0) = en_filter(s, &b0); w.filter(x0); out.push((b"Filter".to_vec(), e0.clone())); }
        12 => {  let e = { let u = w.decode_parms(); sub_decode_parms(u, s, d) }; out.push((b"DecodeParms".to_vec(), e)); }
        _ => {}
    }
}
pub fn fill_stream_shading(w: &mut StreamShading<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_STREAM_SHADING > 0 { arm_stream_shading(w, k % N_SET_STREAM_SHADING, s, d - 1, out); }
    }
}
pub fn init_stream_shading() -> Entries { vec![] }
pub fn sub_stream_shading(mut w: StreamShading<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_stream_shading();
    fill_stream_shading(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_SEPARATION_INFO: usize = 4;
pub const NAMES_SEPARATION_INFO: &[&str] = &["pages", "device_colorant", "device_colorant_str", "color_space"];
fn arm_separation_info(w: &mut SeparationInfo<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.reference()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Ref(*r)).collect(); w.pages(r0.iter().map(|r| Ref::new(*r))); out.push((b"Pages".to_vec(), V::Arr([e0].concat()))); }
        1 => { let x0 = s.string(); w.device_colorant(Name(&x0)); out.push((b"DeviceColorant".to_vec(), V::Name(x0.clone()))); }
        2 => { let x0 = text(s); w.device_colorant_str(&x0); out.push((b"DeviceColorant".to_vec(), V::Text(x0.clone()))); }
        3 => {  let e = { let u = w.color_space(); special::sub_color_space(u, s, d) }; out.push((b"ColorSpace".to_vec(), e)); }
        _ => {}
    }
}
pub fn fill_separation_info(w: &mut SeparationInfo<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_SEPARATION_INFO > 0 { arm_separation_info(w, k % N_SET_SEPARATION_INFO, s, d - 1, out); }
    }
}
pub fn init_separation_info() -> Entries { vec![] }
pub fn sub_separation_info(mut w: SeparationInfo<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_separation_info();
    fill_separation_info(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_OUTPUT_INTENT: usize = 6;
pub const NAMES_OUTPUT_INTENT: &[&str] = &["subtype", "output_condition", "output_condition_identifier", "registry_name", "info", "dest_output_profile"];
fn arm_output_intent(w: &mut OutputIntent<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let b0 = s.string(); let (x0, e0) = en_output_intent_subtype(s, &b0); w.subtype(x0); out.push((b"S".to_vec(), e0.clone())); }
        1 => { let x0 = text(s); w.output_condition(TextStr(&x0)); out.push((b"OutputCondition".to_vec(), V::Text(x0.clone()))); }
        2 => { let x0 = text(s); w.output_condition_identifier(TextStr(&x0)); out.push((b"OutputConditionIdentifier".to_vec(), V::Text(x0.clone()))); }
        3 => { let x0 = text(s); w.registry_name(TextStr(&x0)); out.push((b"RegistryName".to_vec(), V::Text(x0.clone()))); }
        4 => { let x0 = text(s); w.info(TextStr(&x0)); out.push((b"Info".to_vec(), V::Text(x0.clone()))); }
        5 => { let x0 = s.reference(); w.dest_output_profile(Ref::new(x0)); out.push((b"DestOutputProfile".to_vec(), V::Ref(x0))); }
        _ => {}
    }
}
pub fn fill_output_intent(w: &mut OutputIntent<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_OUTPUT_INTENT > 0 { arm_output_intent(w, k % N_SET_OUTPUT_INTENT, s, d - 1, out); }
    }
}
pub fn init_output_intent() -> Entries { vec![(b"Type".to_vec(), V::Name(b"OutputIntent".to_vec()))] }
pub fn sub_output_intent(mut w: OutputIntent<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_output_intent();
    fill_output_intent(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_PROPERTY_LIST: usize = 2;
pub const NAMES_PROPERTY_LIST: &[&str] = &["identify", "actual_text"];
fn arm_property_list(w: &mut PropertyList<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = s.i32(); w.identify(x0); out.push((b"MCID".to_vec(), V::Int(x0))); }
        1 => { let x0 = text(s); w.actual_text(TextStr(&x0)); out.push((b"ActualText".to_vec(), V::Text(x0.clone()))); }
        _ => {}
    }
}
pub fn fill_property_list(w: &mut PropertyList<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_PROPERTY_LIST > 0 { arm_property_list(w, k % N_SET_PROPERTY_LIST, s, d - 1, out); }
    }
}
pub fn init_property_list() -> Entries { vec![] }
pub fn sub_property_list(mut w: PropertyList<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_property_list();
    fill_property_list(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_ARTIFACT: usize = 4;
pub const NAMES_ARTIFACT: &[&str] = &["kind", "subtype", "bounding_box", "attached"];
fn arm_artifact(w: &mut Artifact<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let b0 = s.string(); let (x0, e0) = en_artifact_type(s, &b0); w.kind(x0); out.push((b"Type".to_vec(), e0.clone())); }
        1 => { let b0 = s.string(); let (x0, e0) = en_artifact_subtype(s, &b0); w.subtype(x0); out.push((b"Subtype".to_vec(), e0.clone())); }
        2 => { let x0 = [s.f32(), s.f32(), s.f32(), s.f32()]; w.bounding_box(Rect::new(x0[0], x0[1], x0[2], x0[3])); out.push((b"BBox".to_vec(), V::Rect(x0))); }
        3 => { let r0: Vec<_> = (0..s.count(5)).map(|_| en_artifact_attachment(s, b"")).collect(); let e0: Vec<V> = r0.iter().map(|r| r.1.clone()).collect(); w.attached(r0.iter().map(|r| r.0)); out.push((b"Attached".to_vec(), V::Arr([e0].concat()))); }
        _ => {}
    }
}
pub fn fill_artifact(w: &mut Artifact<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_ARTIFACT > 0 { arm_artifact(w, k % N_SET_ARTIFACT, s, d - 1, out); }
    }
}
pub fn init_artifact() -> Entries { vec![] }
pub fn sub_artifact(mut w: Artifact<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_artifact();
    fill_artifact(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_RESOURCES: usize = 9;
pub const NAMES_RESOURCES: &[&str] = &["x_objects", "fonts", "color_spaces", "patterns", "shadings", "ext_g_states", "proc_sets", "properties", "proc_sets_all"];
fn arm_resources(w: &mut Resources<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => {  let e = { let u = w.x_objects(); special::sub_dict(u, s, d) }; out.push((b"XObject".to_vec(), e)); }
        1 => {  let e = { let u = w.fonts(); special::sub_dict(u, s, d) }; out.push((b"Font".to_vec(), e)); }
        2 => {  let e = { let u = w.color_spaces(); special::sub_dict(u, s, d) }; out.push((b"ColorSpace".to_vec(), e)); }
        3 => {  let e = { let u = w.patterns(); special::sub_dict(u, s, d) }; out.push((b"Pattern".to_vec(), e)); }
        4 => {  let e = { let u = w.shadings(); special::sub_dict(u, s, d) }; out.push((b"Shading".to_vec(), e)); }
        5 => {  let e = { let u = w.ext_g_states(); special::sub_dict(u, s, d) }; out.push((b"ExtGState".to_vec(), e)); }
        6 => { let r0: Vec<_> = (0..s.count(5)).map(|_| en_proc_set(s, b"")).collect(); let e0: Vec<V> = r0.iter().map(|r| r.1.clone()).collect(); w.proc_sets(r0.iter().map(|r| r.0)); out.push((b"ProcSet".to_vec(), V::Arr([e0].concat()))); }
        7 => {  let e = { let u = w.properties(); special::typed_dict(u, s, d, |u, k, s, d| { let u = u.insert(Name(k)); special::sub_property_list(u, s, d) }) }; out.push((b"Properties".to_vec(), e)); }
        8 => special::resources_proc_sets_all(w, s, d, out),
        _ => {}
    }
}
pub fn fill_resources(w: &mut Resources<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_RESOURCES > 0 { arm_resources(w, k % N_SET_RESOURCES, s, d - 1, out); }
    }
}
pub fn init_resources() -> Entries { vec![] }
pub fn sub_resources(mut w: Resources<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_resources();
    fill_resources(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_EXT_GRAPHICS_STATE: usize = 28;
pub const NAMES_EXT_GRAPHICS_STATE: &[&str] = &["line_width", "line_cap", "line_join", "miter_limit", "rendering_intent", "overprint", "overprint_fill", "overprint_mode", "black_generation", "black_generation_default", "undercolor_removal", "undercolor_removal_default", "transfer", "transfer_default", "halftone", "halftone_default", "flatness", "smoothness", "stroke_adjustment", "blend_mode", "soft_mask", "soft_mask_name", "stroking_alpha", "non_stroking_alpha", "alpha_source", "text_knockout", "dash_pattern", "font"];
fn arm_ext_graphics_state(w: &mut ExtGraphicsState<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = s.f32(); w.line_width(x0); out.push((b"LW".to_vec(), V::Real(x0))); }
        1 => { let b0 = s.string(); let (x0, e0) = en_line_cap_style(s, &b0); w.line_cap(x0); out.push((b"LC".to_vec(), e0.clone())); }
        2 => { let b0 = s.string(); let (x0, e0) = en_line_join_style(s, &b0); w.line_join(x0); out.push((b"LJ".to_vec(), e0.clone())); }
        3 => { let x0 = s.f32(); w.miter_limit(x0); out.push((b"ML".to_vec(), V::Real(x0))); }
        4 => { let b0 = s.string(); let (x0, e0) = en_rendering_intent(s, &b0); w.rendering_intent(x0); out.push((b"RI".to_vec(), e0.clone())); }
        5 => { let x0 = s.next() % 2 == 1; w.overprint(x0); out.push((b"OP".to_vec(), V::Bool(x0))); }
        6 => { let x0 = s.next() % 2 == 1; w.overprint_fill(x0); out.push((b"op".to_vec(), V::Bool(x0))); }
        7 => { let b0 = s.string(); let (x0, e0) = en_overprint_mode(s, &b0); w.overprint_mode(x0); out.push((b"OPM".to_vec(), e0.clone())); }
        8 => { let x0 = s.reference(); w.black_generation(Ref::new(x0)); out.push((b"BG".to_vec(), V::Ref(x0))); }
        9 => {  w.black_generation_default(); out.push((b"BG2".to_vec(), V::Name(b"Default".to_vec()))); }
        10 => { let x0 = s.reference(); w.undercolor_removal(Ref::new(x0)); out.push((b"UCR".to_vec(), V::Ref(x0))); }
        11 => {  w.undercolor_removal_default(); out.push((b"UCR2".to_vec(), V::Name(b"Default".to_vec()))); }
        12 => { let x0 = s.reference(); w.transfer(Ref::new(x0)); out.push((b"TR".to_vec(), V::Ref(x0))); }
        13 => {  w.transfer_default(); out.push((b"TR2".to_vec(), V::Name(b"Default".to_vec()))); }
        14 => { let x0 = s.reference(); w.halftone(Ref::new(x0)); out.push((b"HT".to_vec(), V::Ref(x0))); }
        15 => {  w.halftone_default(); out.push((b"HT".to_vec(), V::Name(b"Default".to_vec()))); }
        16 => { let x0 = s.f32(); w.flatness(x0); out.push((b"FL".to_vec(), V::Real(x0))); }
        17 => { let x0 = s.f32(); w.smoothness(x0); out.push((b"SM".to_vec(), V::Real(x0))); }
        18 => { let x0 = s.next() % 2 == 1; w.stroke_adjustment(x0); out.push((b"SA".to_vec(), V::Bool(x0))); }
        19 => { let b0 = s.string(); let (x0, e0) = en_blend_mode(s, &b0); w.blend_mode(x0); out.push((b"BM".to_vec(), e0.clone())); }
        20 => {  let e = { let u = w.soft_mask(); sub_soft_mask(u, s, d) }; out.push((b"SMask".to_vec(), e)); }
        21 => { let x0 = s.string(); w.soft_mask_name(Name(&x0)); out.push((b"SMask".to_vec(), V::Name(x0.clone()))); }
        22 => { let x0 = s.f32(); w.stroking_alpha(x0); out.push((b"CA".to_vec(), V::Real(x0))); }
        23 => { let x0 = s.f32(); w.non_stroking_alpha(x0); out.push((b"ca".to_vec(), V::Real(x0))); }
        24 => { let x0 = s.next() % 2 == 1; w.alpha_source(x0); out.push((b"AIS".to_vec(), V::Bool(x0))); }
        25 => { let x0 = s.next() % 2 == 1; w.text_knockout(x0); out.push((b"TK".to_vec(), V::Bool(x0))); }
        26 => special::ext_graphics_state_dash_pattern(w, s, d, out),
        27 => special::ext_graphics_state_font(w, s, d, out),
        _ => {}
    }
}
pub fn fill_ext_graphics_state(w: &mut ExtGraphicsState<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_EXT_GRAPHICS_STATE > 0 { arm_ext_graphics_state(w, k % N_SET_EXT_GRAPHICS_STATE, s, d - 1, out); }
    }
}
pub fn init_ext_graphics_state() -> Entries { vec![(b"Type".to_vec(), V::Name(b"ExtGState".to_vec()))] }
pub fn sub_ext_graphics_state(mut w: ExtGraphicsState<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_ext_graphics_state();
    fill_ext_graphics_state(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_SOFT_MASK: usize = 4;
pub const NAMES_SOFT_MASK: &[&str] = &["subtype", "group", "backdrop", "transfer_function"];
fn arm_soft_mask(w: &mut SoftMask<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let b0 = s.string(); let (x0, e0) = en_mask_type(s, &b0); w.subtype(x0); out.push((b"S".to_vec(), e0.clone())); }
        1 => { let x0 = s.reference(); w.group(Ref::new(x0)); out.push((b"G".to_vec(), V::Ref(x0))); }
        2 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.f32()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.backdrop(r0.iter().map(|r| *r)); out.push((b"BC".to_vec(), V::Arr([e0].concat()))); }
        3 => { let x0 = s.reference(); w.transfer_function(Ref::new(x0)); out.push((b"TR".to_vec(), V::Ref(x0))); }
        _ => {}
    }
}
pub fn fill_soft_mask(w: &mut SoftMask<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_SOFT_MASK > 0 { arm_soft_mask(w, k % N_SET_SOFT_MASK, s, d - 1, out); }
    }
}
pub fn init_soft_mask() -> Entries { vec![(b"Type".to_vec(), V::Name(b"Mask".to_vec()))] }
pub fn sub_soft_mask(mut w: SoftMask<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_soft_mask();
    fill_soft_mask(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_FILE_SPEC: usize = 8;
pub const NAMES_FILE_SPEC: &[&str] = &["file_system", "path", "unic_file", "volatile", "description", "association_kind", "embedded_file", "embedded_file_with_unicode"];
fn arm_file_spec(w: &mut FileSpec<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = s.string(); w.file_system(Name(&x0)); out.push((b"FS".to_vec(), V::Name(x0.clone()))); }
        1 => { let x0 = s.string(); w.path(Str(&x0)); out.push((b"F".to_vec(), V::Str(x0.clone()))); }
        2 => { let x0 = text(s); w.unic_file(TextStr(&x0)); out.push((b"UF".to_vec(), V::Text(x0.clone()))); }
        3 => { let x0 = s.next() % 2 == 1; w.volatile(x0); out.push((b"V".to_vec(), V::Bool(x0))); }
        4 => { let x0 = text(s); w.description(TextStr(&x0)); out.push((b"Desc".to_vec(), V::Text(x0.clone()))); }
        5 => { let b0 = s.string(); let (x0, e0) = en_association_kind(s, &b0); w.association_kind(x0); out.push((b"AFRelationship".to_vec(), e0.clone())); }
        6 => special::file_spec_embedded_file(w, s, d, out),
        7 => special::file_spec_embedded_file_with_unicode(w, s, d, out),
        _ => {}
    }
}
pub fn fill_file_spec(w: &mut FileSpec<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_FILE_SPEC > 0 { arm_file_spec(w, k % N_SET_FILE_SPEC, s, d - 1, out); }
    }
}
pub fn init_file_spec() -> Entries { vec![(b"Type".to_vec(), V::Name(b"Filespec".to_vec()))] }
pub fn sub_file_spec(mut w: FileSpec<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_file_spec();
    fill_file_spec(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_EMBEDDED_FILE: usize = 4;
pub const NAMES_EMBEDDED_FILE: &[&str] = &["subtype", "params", "filter", "decode_parms"];
fn arm_embedded_file(w: &mut EmbeddedFile<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = s.string(); w.subtype(Name(&x0)); out.push((b"Subtype".to_vec(), V::Name(x0.clone()))); }
        1 => {  let e = { let u = w.params(); sub_embedding_params(u, s, d) }; out.push((b"Params".to_vec(), e)); }
        2 => { let b0 = s.string(); let (x0, e0) = en_filter(s, &b0); w.filter(x0); out.push((b"Filter".to_vec(), e0.clone())); }
        3 => {  let e = { let u = w.decode_parms(); sub_decode_parms(u, s, d) }; out.push((b"DecodeParms".to_vec(), e)); }
        _ => {}
    }
}
pub fn fill_embedded_file(w: &mut EmbeddedFile<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_EMBEDDED_FILE > 0 { arm_embedded_file(w, k % N_SET_EMBEDDED_FILE, s, d - 1, out); }
    }
}
pub fn init_embedded_file() -> Entries { vec![(b"Type".to_vec(), V::Name(b"EmbeddedFile".to_vec()))] }
pub fn sub_embedded_file(mut w: EmbeddedFile<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_embedded_file();
    fill_embedded_file(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_EMBEDDING_PARAMS: usize = 4;
pub const NAMES_EMBEDDING_PARAMS: &[&str] = &["size", "creation_date", "modification_date", "checksum"];
fn arm_embedding_params(w: &mut EmbeddingParams<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = s.i32(); w.size(x0); out.push((b"Size".to_vec(), V::Int(x0))); }
        1 => { let (x0, e0) = date(s); w.creation_date(x0); out.push((b"CreationDate".to_vec(), e0)); }
        2 => { let (x0, e0) = date(s); w.modification_date(x0); out.push((b"ModDate".to_vec(), e0)); }
        3 => { let x0 = s.string(); w.checksum(Str(&x0)); out.push((b"CheckSum".to_vec(), V::Str(x0.clone()))); }
        _ => {}
    }
}
pub fn fill_embedding_params(w: &mut EmbeddingParams<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_EMBEDDING_PARAMS > 0 { arm_embedding_params(w, k % N_SET_EMBEDDING_PARAMS, s, d - 1, out); }
    }
}
pub fn init_embedding_params() -> Entries { vec![] }
pub fn sub_embedding_params(mut w: EmbeddingParams<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_embedding_params();
    fill_embedding_params(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_TYPE1_FONT: usize = 9;
pub const NAMES_TYPE1_FONT: &[&str] = &["name", "base_font", "first_char", "last_char", "widths", "font_descriptor", "encoding_predefined", "encoding_custom", "to_unicode"];
fn arm_type1_font(w: &mut Type1Font<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = s.string(); w.name(Name(&x0)); out.push((b"Name".to_vec(), V::Name(x0.clone()))); }
        1 => { let x0 = s.string(); w.base_font(Name(&x0)); out.push((b"BaseFont".to_vec(), V::Name(x0.clone()))); }
        2 => { let x0 = s.next(); w.first_char(x0); out.push((b"FirstChar".to_vec(), V::Int(x0 as i32))); }
        3 => { let x0 = s.next(); w.last_char(x0); out.push((b"LastChar".to_vec(), V::Int(x0 as i32))); }
        4 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.f32()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.widths(r0.iter().map(|r| *r)); out.push((b"Widths".to_vec(), V::Arr([e0].concat()))); }
        5 => { let x0 = s.reference(); w.font_descriptor(Ref::new(x0)); out.push((b"FontDescriptor".to_vec(), V::Ref(x0))); }
        6 => { let x0 = s.string(); w.encoding_predefined(Name(&x0)); out.push((b"Encoding".to_vec(), V::Name(x0.clone()))); }
        7 => {  let e = { let u = w.encoding_custom(); sub_encoding(u, s, d) }; out.push((b"Encoding".to_vec(), e)); }
        8 => { let x0 = s.reference(); w.to_unicode(Ref::new(x0)); out.push((b"ToUnicode".to_vec(), V::Ref(x0))); }
        _ => {}
    }
}
pub fn fill_type1_font(w: &mut Type1Font<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_TYPE1_FONT > 0 { arm_type1_font(w, k % N_SET_TYPE1_FONT, s, d - 1, out); }
    }
}
pub fn init_type1_font() -> Entries { vec![(b"Type".to_vec(), V::Name(b"Font".to_vec())), (b"Subtype".to_vec(), V::Name(b"Type1".to_vec()))] }
pub fn sub_type1_font(mut w: Type1Font<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_type1_font();
    fill_type1_font(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_TYPE3_FONT: usize = 12;
pub const NAMES_TYPE3_FONT: &[&str] = &["name", "bbox", "matrix", "char_procs", "encoding_predefined", "encoding_custom", "first_char", "last_char", "widths", "font_descriptor", "resources", "to_unicode"];
fn arm_type3_font(w: &mut Type3Font<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = s.string(); w.name(Name(&x0)); out.push((b"Name".to_vec(), V::Name(x0.clone()))); }
        1 => { let x0 = [s.f32(), s.f32(), s.f32(), s.f32()]; w.bbox(Rect::new(x0[0], x0[1], x0[2], x0[3])); out.push((b"FontBBox".to_vec(), V::Rect(x0))); }
        2 => { let r0: Vec<_> = s.floats(6); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.matrix(<[_; 6]>::try_from(r0.iter().map(|r| *r).collect::<Vec<_>>()).ok().unwrap()); out.push((b"FontMatrix".to_vec(), V::Arr([e0].concat()))); }
        3 => {  let e = { let u = w.char_procs(); special::typed_dict(u, s, d, |u, k, s, d| { let x = s.reference(); u.pair(Name(k), Ref::new(x)); let _ = d; V::Ref(x) }) }; out.push((b"CharProcs".to_vec(), e)); }
        4 => { let x0 = s.string(); w.encoding_predefined(Name(&x0)); out.push((b"Encoding".to_vec(), V::Name(x0.clone()))); }
        5 => {  let e = { let u = w.encoding_custom(); sub_encoding(u, s, d) }; out.push((b"Encoding".to_vec(), e)); }
        6 => { let x0 = s.next(); w.first_char(x0); out.push((b"FirstChar".to_vec(), V::Int(x0 as i32))); }
        7 => { let x0 = s.next(); w.last_char(x0); out.push((b"LastChar".to_vec(), V::Int(x0 as i32))); }
        8 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.f32()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.widths(r0.iter().map(|r| *r)); out.push((b"Widths".to_vec(), V::Arr([e0].concat()))); }
        9 => { let x0 = s.reference(); w.font_descriptor(Ref::new(x0)); out.push((b"FontDescriptor".to_vec(), V::Ref(x0))); }
        10 => {  let e = { let u = w.resources(); sub_resources(u, s, d) }; out.push((b"Resources".to_vec(), e)); }
        11 => { let x0 = s.reference(); w.to_unicode(Ref::new(x0)); out.push((b"ToUnicode".to_vec(), V::Ref(x0))); }
        _ => {}
    }
}
pub fn fill_type3_font(w: &mut Type3Font<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_TYPE3_FONT > 0 { arm_type3_font(w, k % N_SET_TYPE3_FONT, s, d - 1, out); }
    }
}
pub fn init_type3_font() -> Entries { vec![(b"Type".to_vec(), V::Name(b"Font".to_vec())), (b"Subtype".to_vec(), V::Name(b"Type3".to_vec()))] }
pub fn sub_type3_font(mut w: Type3Font<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_type3_font();
    fill_type3_font(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_ENCODING: usize = 2;
pub const NAMES_ENCODING: &[&str] = &["base_encoding", "differences"];
fn arm_encoding(w: &mut Encoding<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = s.string(); w.base_encoding(Name(&x0)); out.push((b"BaseEncoding".to_vec(), V::Name(x0.clone()))); }
        1 => {  let e = { let u = w.differences(); sub_differences(u, s, d) }; out.push((b"Differences".to_vec(), e)); }
        _ => {}
    }
}
pub fn fill_encoding(w: &mut Encoding<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_ENCODING > 0 { arm_encoding(w, k % N_SET_ENCODING, s, d - 1, out); }
    }
}
pub fn init_encoding() -> Entries { vec![(b"Type".to_vec(), V::Name(b"Encoding".to_vec()))] }
pub fn sub_encoding(mut w: Encoding<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_encoding();
    fill_encoding(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_DIFFERENCES: usize = 1;
pub const NAMES_DIFFERENCES: &[&str] = &["consecutive"];
fn arm_differences(w: &mut Differences<'_>, k: usize, s: &mut Src, d: usize, out: &mut Vec<V>) {
    match k {
        0 => special::differences_consecutive(w, s, d, out),
        _ => {}
    }
}
pub fn fill_differences(w: &mut Differences<'_>, s: &mut Src, d: usize, out: &mut Vec<V>) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_DIFFERENCES > 0 { arm_differences(w, k % N_SET_DIFFERENCES, s, d - 1, out); }
    }
}
pub fn init_differences() -> Vec<V> { vec![] }
pub fn sub_differences(mut w: Differences<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_differences();
    fill_differences(&mut w, s, d, &mut out);
    V::Arr(out)
}
pub const N_SET_TYPE0_FONT: usize = 5;
pub const NAMES_TYPE0_FONT: &[&str] = &["base_font", "encoding_predefined", "encoding_cmap", "descendant_font", "to_unicode"];
fn arm_type0_font(w: &mut Type0Font<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = s.string(); w.base_font(Name(&x0)); out.push((b"BaseFont".to_vec(), V::Name(x0.clone()))); }
        1 => { let x0 = s.string(); w.encoding_predefined(Name(&x0)); out.push((b"Encoding".to_vec(), V::Name(x0.clone()))); }
        2 => { let x0 = s.reference(); w.encoding_cmap(Ref::new(x0)); out.push((b"Encoding".to_vec(), V::Ref(x0))); }
        3 => { let x0 = s.reference(); w.descendant_font(Ref::new(x0)); out.push((b"DescendantFonts".to_vec(), V::Arr([vec![V::Ref(x0)]].concat()))); }
        4 => { let x0 = s.reference(); w.to_unicode(Ref::new(x0)); out.push((b"ToUnicode".to_vec(), V::Ref(x0))); }
        _ => {}
    }
}
pub fn fill_type0_font(w: &mut Type0Font<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_TYPE0_FONT > 0 { arm_type0_font(w, k % N_SET_TYPE0_FONT, s, d - 1, out); }
    }
}
pub fn init_type0_font() -> Entries { vec![(b"Type".to_vec(), V::Name(b"Font".to_vec())), (b"Subtype".to_vec(), V::Name(b"Type0".to_vec()))] }
pub fn sub_type0_font(mut w: Type0Font<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_type0_font();
    fill_type0_font(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_CID_FONT: usize = 8;
pub const NAMES_CID_FONT: &[&str] = &["subtype", "base_font", "font_descriptor", "default_width", "widths", "cid_to_gid_map_predefined", "cid_to_gid_map_stream", "system_info"];
fn arm_cid_font(w: &mut CidFont<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let b0 = s.string(); let (x0, e0) = en_cid_font_type(s, &b0); w.subtype(x0); out.push((b"Subtype".to_vec(), e0.clone())); }
        1 => { let x0 = s.string(); w.base_font(Name(&x0)); out.push((b"BaseFont".to_vec(), V::Name(x0.clone()))); }
        2 => { let x0 = s.reference(); w.font_descriptor(Ref::new(x0)); out.push((b"FontDescriptor".to_vec(), V::Ref(x0))); }
        3 => { let x0 = s.f32(); w.default_width(x0); out.push((b"DW".to_vec(), V::Real(x0))); }
        4 => {  let e = { let u = w.widths(); sub_widths(u, s, d) }; out.push((b"W".to_vec(), e)); }
        5 => { let x0 = s.string(); w.cid_to_gid_map_predefined(Name(&x0)); out.push((b"CIDToGIDMap".to_vec(), V::Name(x0.clone()))); }
        6 => { let x0 = s.reference(); w.cid_to_gid_map_stream(Ref::new(x0)); out.push((b"CIDToGIDMap".to_vec(), V::Ref(x0))); }
        7 => special::cid_font_system_info(w, s, d, out),
        _ => {}
    }
}
pub fn fill_cid_font(w: &mut CidFont<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_CID_FONT > 0 { arm_cid_font(w, k % N_SET_CID_FONT, s, d - 1, out); }
    }
}
pub fn init_cid_font() -> Entries { vec![(b"Type".to_vec(), V::Name(b"Font".to_vec()))] }
pub fn sub_cid_font(mut w: CidFont<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_cid_font();
    fill_cid_font(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_WIDTHS: usize = 2;
pub const NAMES_WIDTHS: &[&str] = &["same", "consecutive"];
fn arm_widths(w: &mut Widths<'_>, k: usize, s: &mut Src, d: usize, out: &mut Vec<V>) {
    match k {
        0 => { let x0 = s.i32() as u16; let x1 = s.i32() as u16; let x2 = s.f32(); w.same(x0, x1, x2); out.extend([vec![V::Int(x0 as i32)], vec![V::Int(x1 as i32)], vec![V::Real(x2)]].concat()); }
        1 => special::widths_consecutive(w, s, d, out),
        _ => {}
    }
}
pub fn fill_widths(w: &mut Widths<'_>, s: &mut Src, d: usize, out: &mut Vec<V>) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_WIDTHS > 0 { arm_widths(w, k % N_SET_WIDTHS, s, d - 1, out); }
    }
}
pub fn init_widths() -> Vec<V> { vec![] }
pub fn sub_widths(mut w: Widths<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_widths();
    fill_widths(&mut w, s, d, &mut out);
    V::Arr(out)
}
pub const N_SET_FONT_DESCRIPTOR: usize = 24;
pub const NAMES_FONT_DESCRIPTOR: &[&str] = &["name", "family", "stretch", "weight", "flags", "bbox", "italic_angle", "ascent", "descent", "leading", "cap_height", "x_height", "stem_v", "stem_h", "avg_width", "max_width", "missing_width", "font_file", "font_file2", "font_file3", "char_set", "descriptor_override", "cid_set", "style"];
fn arm_font_descriptor(w: &mut FontDescriptor<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = s.string(); w.name(Name(&x0)); out.push((b"FontName".to_vec(), V::Name(x0.clone()))); }
        1 => { let x0 = s.string(); w.family(Str(&x0)); out.push((b"FontFamily".to_vec(), V::Str(x0.clone()))); }
        2 => { let b0 = s.string(); let (x0, e0) = en_font_stretch(s, &b0); w.stretch(x0); out.push((b"FontStretch".to_vec(), e0.clone())); }
        3 => { let x0 = s.i32() as u16; w.weight(x0); out.push((b"FontWeight".to_vec(), V::Int(x0 as i32))); }
        4 => { let (x0, e0) = fl_font_flags(s); w.flags(x0); out.push((b"Flags".to_vec(), V::Int(e0))); }
        5 => { let x0 = [s.f32(), s.f32(), s.f32(), s.f32()]; w.bbox(Rect::new(x0[0], x0[1], x0[2], x0[3])); out.push((b"FontBBox".to_vec(), V::Rect(x0))); }
        6 => { let x0 = s.f32(); w.italic_angle(x0); out.push((b"ItalicAngle".to_vec(), V::Real(x0))); }
        7 => { let x0 = s.f32(); w.ascent(x0); out.push((b"Ascent".to_vec(), V::Real(x0))); }
        8 => { let x0 = s.f32(); w.descent(x0); out.push((b"Descent".to_vec(), V::Real(x0))); }
        9 => { let x0 = s.f32(); w.leading(x0); out.push((b"Leading".to_vec(), V::Real(x0))); }
        10 => { let x0 = s.f32(); w.cap_height(x0); out.push((b"CapHeight".to_vec(), V::Real(x0))); }
        11 => { let x0 = s.f32(); w.x_height(x0); out.push((b"XHeight".to_vec(), V::Real(x0))); }
        12 => { let x0 = s.f32(); w.stem_v(x0); out.push((b"StemV".to_vec(), V::Real(x0))); }
        13 => { let x0 = s.f32(); w.stem_h(x0); out.push((b"StemH".to_vec(), V::Real(x0))); }
        14 => { let x0 = s.f32(); w.avg_width(x0); out.push((b"AvgWidth".to_vec(), V::Real(x0))); }
        15 => { let x0 = s.f32(); w.max_width(x0); out.push((b"MaxWidth".to_vec(), V::Real(x0))); }
        16 => { let x0 = s.f32(); w.missing_width(x0); out.push((b"MissingWidth".to_vec(), V::Real(x0))); }
        17 => { let x0 = s.reference(); w.font_file(Ref::new(x0)); out.push((b"FontFile".to_vec(), V::Ref(x0))); }
        18 => { let x0 = s.reference(); w.font_file2(Ref::new(x0)); out.push((b"FontFile2".to_vec(), V::Ref(x0))); }
        19 => { let x0 = s.reference(); w.font_file3(Ref::new(x0)); out.push((b"FontFile3".to_vec(), V::Ref(x0))); }
        20 => { let x0 = s.string(); w.char_set(Str(&x0)); out.push((b"CharSet".to_vec(), V::Str(x0.clone()))); }
        21 => {  let e = { let u = w.descriptor_override(); sub_font_descriptor_override(u, s, d) }; out.push((b"FD".to_vec(), e)); }
        22 => { let x0 = s.reference(); w.cid_set(Ref::new(x0)); out.push((b"CIDSet".to_vec(), V::Ref(x0))); }
        23 => special::font_descriptor_style(w, s, d, out),
        _ => {}
    }
}
pub fn fill_font_descriptor(w: &mut FontDescriptor<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_FONT_DESCRIPTOR > 0 { arm_font_descriptor(w, k % N_SET_FONT_DESCRIPTOR, s, d - 1, out); }
    }
}
pub fn init_font_descriptor() -> Entries { vec![(b"Type".to_vec(), V::Name(b"FontDescriptor".to_vec()))] }
pub fn sub_font_descriptor(mut w: FontDescriptor<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_font_descriptor();
    fill_font_descriptor(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_FONT_DESCRIPTOR_OVERRIDE: usize = 4;
pub const NAMES_FONT_DESCRIPTOR_OVERRIDE: &[&str] = &["custom_class", "custom_class_ref", "cjk_class", "cjk_class_ref"];
fn arm_font_descriptor_override(w: &mut FontDescriptorOverride<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => special::font_descriptor_override_custom_class(w, s, d, out),
        1 => special::font_descriptor_override_custom_class_ref(w, s, d, out),
        2 => special::font_descriptor_override_cjk_class(w, s, d, out),
        3 => special::font_descriptor_override_cjk_class_ref(w, s, d, out),
        _ => {}
    }
}
pub fn fill_font_descriptor_override(w: &mut FontDescriptorOverride<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_FONT_DESCRIPTOR_OVERRIDE > 0 { arm_font_descriptor_override(w, k % N_SET_FONT_DESCRIPTOR_OVERRIDE, s, d - 1, out); }
    }
}
pub fn init_font_descriptor_override() -> Entries { vec![] }
pub fn sub_font_descriptor_override(mut w: FontDescriptorOverride<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_font_descriptor_override();
    fill_font_descriptor_override(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_CMAP: usize = 7;
pub const NAMES_CMAP: &[&str] = &["name", "writing_mode", "use_cmap_stream", "use_cmap_predefined", "filter", "decode_parms", "system_info"];
fn arm_cmap(w: &mut Cmap<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = s.string(); w.name(Name(&x0)); out.push((b"CMapName".to_vec(), V::Name(x0.clone()))); }
        1 => { let b0 = s.string(); let (x0, e0) = en_w_mode(s, &b0); w.writing_mode(x0); out.push((b"WMode".to_vec(), e0.clone())); }
        2 => { let x0 = s.reference(); w.use_cmap_stream(Ref::new(x0)); out.push((b"UseCMap".to_vec(), V::Ref(x0))); }
        3 => { let x0 = s.string(); w.use_cmap_predefined(Name(&x0)); out.push((b"UseCMap".to_vec(), V::Name(x0.clone()))); }
        4 => { let b0 = s.string(); let (x0, e0) = en_filter(s, &b0); w.filter(x0); out.push((b"Filter".to_vec(), e0.clone())); }
        5 => {  let e = { let u = w.decode_parms(); sub_decode_parms(u, s, d) }; out.push((b"DecodeParms".to_vec(), e)); }
        6 => special::cmap_system_info(w, s, d, out),
        _ => {}
    }
}
pub fn fill_cmap(w: &mut Cmap<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_CMAP > 0 { arm_cmap(w, k % N_SET_CMAP, s, d - 1, out); }
    }
}
pub fn init_cmap() -> Entries { vec![(b"Type".to_vec(), V::Name(b"CMap".to_vec()))] }
pub fn sub_cmap(mut w: Cmap<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_cmap();
    fill_cmap(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_FORM: usize = 6;
pub const NAMES_FORM: &[&str] = &["fields", "sig_flags", "calculation_order", "default_resources", "default_appearance", "quadding"];
fn arm_form(w: &mut Form<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.reference()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Ref(*r)).collect(); w.fields(r0.iter().map(|r| Ref::new(*r))); out.push((b"Fields".to_vec(), V::Arr([e0].concat()))); }
        1 => { let (x0, e0) = fl_sig_flags(s); w.sig_flags(x0); out.push((b"SigFlags".to_vec(), V::Int(e0))); }
        2 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.reference()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Ref(*r)).collect(); w.calculation_order(r0.iter().map(|r| Ref::new(*r))); out.push((b"CO".to_vec(), V::Arr([e0].concat()))); }
        3 => {  let e = { let u = w.default_resources(); sub_resources(u, s, d) }; out.push((b"DR".to_vec(), e)); }
        4 => { let x0 = s.string(); w.default_appearance(Str(&x0)); out.push((b"DA".to_vec(), V::Str(x0.clone()))); }
        5 => { let b0 = s.string(); let (x0, e0) = en_quadding(s, &b0); w.quadding(x0); out.push((b"Q".to_vec(), e0.clone())); }
        _ => {}
    }
}
pub fn fill_form(w: &mut Form<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_FORM > 0 { arm_form(w, k % N_SET_FORM, s, d - 1, out); }
    }
}
pub fn init_form() -> Entries { vec![] }
pub fn sub_form(mut w: Form<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_form();
    fill_form(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_FIELD: usize = 29;
pub const NAMES_FIELD: &[&str] = &["field_type", "parent", "children", "partial_name", "alternate_name", "mapping_name", "field_flags", "additional_actions", "button_options", "checkbox_value", "checkbox_default_value", "radio_value", "radio_default_value", "text_max_len", "text_value", "text_default_value", "vartext_default_appearance", "vartext_quadding", "vartext_default_style", "vartext_rich_value", "choice_options", "choice_top_index", "choice_indices", "choice_values", "choice_default_values", "signature_field_lock", "signature_seed_value", "choice_value", "choice_default_value"];
fn arm_field(w: &mut Field<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let b0 = s.string(); let (x0, e0) = en_field_type(s, &b0); w.field_type(x0); out.push((b"FT".to_vec(), e0.clone())); }
        1 => { let x0 = s.reference(); w.parent(Ref::new(x0)); out.push((b"Parent".to_vec(), V::Ref(x0))); }
        2 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.reference()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Ref(*r)).collect(); w.children(r0.iter().map(|r| Ref::new(*r))); out.push((b"Kids".to_vec(), V::Arr([e0].concat()))); }
        3 => { let x0 = text(s); w.partial_name(TextStr(&x0)); out.push((b"T".to_vec(), V::Text(x0.clone()))); }
        4 => { let x0 = text(s); w.alternate_name(TextStr(&x0)); out.push((b"TU".to_vec(), V::Text(x0.clone()))); }
        5 => { let x0 = text(s); w.mapping_name(TextStr(&x0)); out.push((b"TM".to_vec(), V::Text(x0.clone()))); }
        6 => { let (x0, e0) = fl_field_flags(s); w.field_flags(x0); out.push((b"Ff".to_vec(), V::Int(e0))); }
        7 => {  let e = { let u = w.additional_actions(); sub_additional_actions(u, s, d) }; out.push((b"AA".to_vec(), e)); }
        8 => { let r0: Vec<_> = (0..s.count(5)).map(|_| text(s)).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Text(r.clone())).collect(); w.button_options(r0.iter().map(|r| TextStr(r))); out.push((b"Opt".to_vec(), V::Arr([e0].concat()))); }
        9 => { let b0 = s.string(); let (x0, e0) = en_check_box_state(s, &b0); w.checkbox_value(x0); out.push((b"V".to_vec(), e0.clone())); }
        10 => { let b0 = s.string(); let (x0, e0) = en_check_box_state(s, &b0); w.checkbox_default_value(x0); out.push((b"DV".to_vec(), e0.clone())); }
        11 => { let x0 = s.string(); w.radio_value(Name(&x0)); out.push((b"V".to_vec(), V::Name(x0.clone()))); }
        12 => { let x0 = s.string(); w.radio_default_value(Name(&x0)); out.push((b"DV".to_vec(), V::Name(x0.clone()))); }
        13 => { let x0 = s.i32(); w.text_max_len(x0); out.push((b"MaxLen".to_vec(), V::Int(x0))); }
        14 => { let x0 = text(s); w.text_value(TextStr(&x0)); out.push((b"V".to_vec(), V::Text(x0.clone()))); }
        15 => { let x0 = text(s); w.text_default_value(TextStr(&x0)); out.push((b"DV".to_vec(), V::Text(x0.clone()))); }
        16 => { let x0 = s.string(); w.vartext_default_appearance(Str(&x0)); out.push((b"DA".to_vec(), V::Str(x0.clone()))); }
        17 => { let b0 = s.string(); let (x0, e0) = en_quadding(s, &b0); w.vartext_quadding(x0); out.push((b"Q".to_vec(), e0.clone())); }
        18 => { let x0 = text(s); w.vartext_default_style(TextStr(&x0)); out.push((b"DS".to_vec(), V::Text(x0.clone()))); }
        19 => { let x0 = text(s); w.vartext_rich_value(TextStr(&x0)); out.push((b"RV".to_vec(), V::Text(x0.clone()))); }
        20 => {  let e = { let u = w.choice_options(); sub_choice_options(u, s, d) }; out.push((b"Opt".to_vec(), e)); }
        21 => { let x0 = s.i32(); w.choice_top_index(x0); out.push((b"TI".to_vec(), V::Int(x0))); }
        22 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.i32()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Int(*r)).collect(); w.choice_indices(r0.iter().map(|r| *r)); out.push((b"I".to_vec(), V::Arr([e0].concat()))); }
        23 => { let r0: Vec<_> = (0..s.count(5)).map(|_| text(s)).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Text(r.clone())).collect(); w.choice_values(r0.iter().map(|r| TextStr(r))); out.push((b"V".to_vec(), V::Arr([e0].concat()))); }
        24 => { let r0: Vec<_> = (0..s.count(5)).map(|_| text(s)).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Text(r.clone())).collect(); w.choice_default_values(r0.iter().map(|r| TextStr(r))); out.push((b"DV".to_vec(), V::Arr([e0].concat()))); }
        25 => { let x0 = s.reference(); w.signature_field_lock(Ref::new(x0)); out.push((b"Lock".to_vec(), V::Ref(x0))); }
        26 => { let x0 = s.reference(); w.signature_seed_value(Ref::new(x0)); out.push((b"SV".to_vec(), V::Ref(x0))); }
        27 => special::field_choice_value(w, s, d, out),
        28 => special::field_choice_default_value(w, s, d, out),
        _ => {}
    }
}
pub fn fill_field(w: &mut Field<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_FIELD > 0 { arm_field(w, k % N_SET_FIELD, s, d - 1, out); }
    }
}
pub fn init_field() -> Entries { vec![] }
pub fn sub_field(mut w: Field<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_field();
    fill_field(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_CHOICE_OPTIONS: usize = 4;
pub const NAMES_CHOICE_OPTIONS: &[&str] = &["option", "options", "export", "exports"];
fn arm_choice_options(w: &mut ChoiceOptions<'_>, k: usize, s: &mut Src, d: usize, out: &mut Vec<V>) {
    match k {
        0 => { let x0 = text(s); w.option(TextStr(&x0)); out.extend([vec![V::Text(x0.clone())]].concat()); }
        1 => { let r0: Vec<_> = (0..s.count(5)).map(|_| text(s)).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Text(r.clone())).collect(); w.options(r0.iter().map(|r| TextStr(r))); out.extend([e0].concat()); }
        2 => special::choice_options_export(w, s, d, out),
        3 => special::choice_options_exports(w, s, d, out),
        _ => {}
    }
}
pub fn fill_choice_options(w: &mut ChoiceOptions<'_>, s: &mut Src, d: usize, out: &mut Vec<V>) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_CHOICE_OPTIONS > 0 { arm_choice_options(w, k % N_SET_CHOICE_OPTIONS, s, d - 1, out); }
    }
}
pub fn init_choice_options() -> Vec<V> { vec![] }
pub fn sub_choice_options(mut w: ChoiceOptions<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_choice_options();
    fill_choice_options(&mut w, s, d, &mut out);
    V::Arr(out)
}
pub const N_SET_SIGNATURE_FIELD_LOCK: usize = 3;
pub const NAMES_SIGNATURE_FIELD_LOCK: &[&str] = &["action", "fields", "access_permissions"];
fn arm_signature_field_lock(w: &mut SignatureFieldLock<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let b0 = s.string(); let (x0, e0) = en_signature_lock_action(s, &b0); w.action(x0); out.push((b"Action".to_vec(), e0.clone())); }
        1 => { let r0: Vec<_> = (0..s.count(5)).map(|_| text(s)).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Text(r.clone())).collect(); w.fields(r0.iter().map(|r| TextStr(r))); out.push((b"Fields".to_vec(), V::Arr([e0].concat()))); }
        2 => { let b0 = s.string(); let (x0, e0) = en_access_permissions(s, &b0); w.access_permissions(x0); out.push((b"P".to_vec(), e0.clone())); }
        _ => {}
    }
}
pub fn fill_signature_field_lock(w: &mut SignatureFieldLock<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_SIGNATURE_FIELD_LOCK > 0 { arm_signature_field_lock(w, k % N_SET_SIGNATURE_FIELD_LOCK, s, d - 1, out); }
    }
}
pub fn init_signature_field_lock() -> Entries { vec![(b"Type".to_vec(), V::Name(b"SigFieldLock".to_vec()))] }
pub fn sub_signature_field_lock(mut w: SignatureFieldLock<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_signature_field_lock();
    fill_signature_field_lock(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_SIGNATURE_SEED_VALUE: usize = 13;
pub const NAMES_SIGNATURE_SEED_VALUE: &[&str] = &["constraint_flags", "filter", "sub_filter", "digest_method", "version", "certificate", "reasons", "modification_detection_prevention", "timestamp", "legal_attestation", "add_rev_info", "lock_document", "appearance_filter"];
fn arm_signature_seed_value(w: &mut SignatureSeedValue<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let (x0, e0) = fl_signature_seed_value_flags(s); w.constraint_flags(x0); out.push((b"Ff".to_vec(), V::Int(e0))); }
        1 => { let x0 = s.string(); w.filter(Name(&x0)); out.push((b"Filter".to_vec(), V::Name(x0.clone()))); }
        2 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.string()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Name(r.clone())).collect(); w.sub_filter(r0.iter().map(|r| Name(r))); out.push((b"SubFilter".to_vec(), V::Arr([e0].concat()))); }
        3 => { let r0: Vec<_> = (0..s.count(5)).map(|_| en_signature_digest_method(s, b"")).collect(); let e0: Vec<V> = r0.iter().map(|r| r.1.clone()).collect(); w.digest_method(r0.iter().map(|r| r.0)); out.push((b"DigestMethod".to_vec(), V::Arr([e0].concat()))); }
        4 => { let b0 = s.string(); let (x0, e0) = en_seed_value_parser_version(s, &b0); w.version(x0); out.push((b"V".to_vec(), e0.clone())); }
        5 => {  let e = { let u = w.certificate(); sub_certificate_seed_value(u, s, d) }; out.push((b"Cert".to_vec(), e)); }
        6 => { let r0: Vec<_> = (0..s.count(5)).map(|_| text(s)).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Text(r.clone())).collect(); w.reasons(r0.iter().map(|r| TextStr(r))); out.push((b"Reasons".to_vec(), V::Arr([e0].concat()))); }
        7 => {  let e = { let u = w.modification_detection_prevention(); sub_signature_modification_detection_prevention(u, s, d) }; out.push((b"MDP".to_vec(), e)); }
        8 => {  let e = { let u = w.timestamp(); sub_signature_time_stamp(u, s, d) }; out.push((b"TimeStamp".to_vec(), e)); }
        9 => { let r0: Vec<_> = (0..s.count(5)).map(|_| text(s)).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Text(r.clone())).collect(); w.legal_attestation(r0.iter().map(|r| TextStr(r))); out.push((b"LegalAttestation".to_vec(), V::Arr([e0].concat()))); }
        10 => { let x0 = s.next() % 2 == 1; w.add_rev_info(x0); out.push((b"AddRevInfo".to_vec(), V::Bool(x0))); }
        11 => { let b0 = s.string(); let (x0, e0) = en_locking_intent(s, &b0); w.lock_document(x0); out.push((b"LockDocument".to_vec(), e0.clone())); }
        12 => { let x0 = text(s); w.appearance_filter(TextStr(&x0)); out.push((b"AppearanceFilter".to_vec(), V::Text(x0.clone()))); }
        _ => {}
    }
}
pub fn fill_signature_seed_value(w: &mut SignatureSeedValue<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_SIGNATURE_SEED_VALUE > 0 { arm_signature_seed_value(w, k % N_SET_SIGNATURE_SEED_VALUE, s, d - 1, out); }
    }
}
pub fn init_signature_seed_value() -> Entries { vec![(b"Type".to_vec(), V::Name(b"SV".to_vec()))] }
pub fn sub_signature_seed_value(mut w: SignatureSeedValue<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_signature_seed_value();
    fill_signature_seed_value(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_SIGNATURE_MODIFICATION_DETECTION_PREVENTION: usize = 1;
pub const NAMES_SIGNATURE_MODIFICATION_DETECTION_PREVENTION: &[&str] = &["signature_type"];
fn arm_signature_modification_detection_prevention(w: &mut SignatureModificationDetectionPrevention<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let (x0, e0) = special::mdp(s); w.signature_type(x0); out.push((b"P".to_vec(), V::Int(e0))); }
        _ => {}
    }
}
pub fn fill_signature_modification_detection_prevention(w: &mut SignatureModificationDetectionPrevention<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_SIGNATURE_MODIFICATION_DETECTION_PREVENTION > 0 { arm_signature_modification_detection_prevention(w, k % N_SET_SIGNATURE_MODIFICATION_DETECTION_PREVENTION, s, d - 1, out); }
    }
}
pub fn init_signature_modification_detection_prevention() -> Entries { vec![] }
pub fn sub_signature_modification_detection_prevention(mut w: SignatureModificationDetectionPrevention<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_signature_modification_detection_prevention();
    fill_signature_modification_detection_prevention(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_SIGNATURE_TIME_STAMP: usize = 2;
pub const NAMES_SIGNATURE_TIME_STAMP: &[&str] = &["url", "required"];
fn arm_signature_time_stamp(w: &mut SignatureTimeStamp<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = s.string(); w.url(Str(&x0)); out.push((b"URL".to_vec(), V::Str(x0.clone()))); }
        1 => { let x0 = s.next() % 2 == 1; w.required(x0); out.push((b"Ff".to_vec(), V::Int(x0 as i32))); }
        _ => {}
    }
}
pub fn fill_signature_time_stamp(w: &mut SignatureTimeStamp<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_SIGNATURE_TIME_STAMP > 0 { arm_signature_time_stamp(w, k % N_SET_SIGNATURE_TIME_STAMP, s, d - 1, out); }
    }
}
pub fn init_signature_time_stamp() -> Entries { vec![] }
pub fn sub_signature_time_stamp(mut w: SignatureTimeStamp<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_signature_time_stamp();
    fill_signature_time_stamp(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_CERTIFICATE_SEED_VALUE: usize = 12;
pub const NAMES_CERTIFICATE_SEED_VALUE: &[&str] = &["constraint_flags", "subject", "signature_policy_oid", "signature_policy_hash_value", "signature_policy_hash_algorithm", "signature_policy_commitment_type", "subject_dn", "issuer", "oid", "url", "url_type", "key_usage"];
fn arm_certificate_seed_value(w: &mut CertificateSeedValue<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let (x0, e0) = fl_certificate_seed_value_flags(s); w.constraint_flags(x0); out.push((b"Ff".to_vec(), V::Int(e0))); }
        1 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.string()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Str(r.clone())).collect(); w.subject(r0.iter().map(|r| Str(r))); out.push((b"Subject".to_vec(), V::Arr([e0].concat()))); }
        2 => { let x0 = s.string(); w.signature_policy_oid(Str(&x0)); out.push((b"SignaturePolicyOID".to_vec(), V::Str(x0.clone()))); }
        3 => { let x0 = s.string(); w.signature_policy_hash_value(Str(&x0)); out.push((b"SignaturePolicyHashValue".to_vec(), V::Str(x0.clone()))); }
        4 => { let x0 = s.string(); w.signature_policy_hash_algorithm(Name(&x0)); out.push((b"SignaturePolicyHashAlgorithm".to_vec(), V::Name(x0.clone()))); }
        5 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.string()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Str(r.clone())).collect(); w.signature_policy_commitment_type(r0.iter().map(|r| Str(r))); out.push((b"SignaturePolicyCommitmentType".to_vec(), V::Arr([e0].concat()))); }
        6 => {  let e = { let u = w.subject_dn(); special::typed_array(u, s, d, |u, s, d| { let u = u.push(); special::sub_dict(u, s, d) }) }; out.push((b"SubjectDN".to_vec(), e)); }
        7 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.string()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Str(r.clone())).collect(); w.issuer(r0.iter().map(|r| Str(r))); out.push((b"Issuer".to_vec(), V::Arr([e0].concat()))); }
        8 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.string()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Str(r.clone())).collect(); w.oid(r0.iter().map(|r| Str(r))); out.push((b"OID".to_vec(), V::Arr([e0].concat()))); }
        9 => { let x0 = s.string(); w.url(Str(&x0)); out.push((b"URL".to_vec(), V::Str(x0.clone()))); }
        10 => { let b0 = s.string(); let (x0, e0) = en_certificate_url_type(s, &b0); w.url_type(x0); out.push((b"URLType".to_vec(), e0.clone())); }
        11 => special::certificate_seed_value_key_usage(w, s, d, out),
        _ => {}
    }
}
pub fn fill_certificate_seed_value(w: &mut CertificateSeedValue<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_CERTIFICATE_SEED_VALUE > 0 { arm_certificate_seed_value(w, k % N_SET_CERTIFICATE_SEED_VALUE, s, d - 1, out); }
    }
}
pub fn init_certificate_seed_value() -> Entries { vec![(b"Type".to_vec(), V::Name(b"SVCert".to_vec()))] }
pub fn sub_certificate_seed_value(mut w: CertificateSeedValue<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_certificate_seed_value();
    fill_certificate_seed_value(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_SAMPLED_FUNCTION: usize = 7;
pub const NAMES_SAMPLED_FUNCTION: &[&str] = &["size", "bits_per_sample", "order", "encode", "decode", "filter", "decode_parms"];
fn arm_sampled_function(w: &mut SampledFunction<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.i32()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Int(*r)).collect(); w.size(r0.iter().map(|r| *r)); out.push((b"Size".to_vec(), V::Arr([e0].concat()))); }
        1 => { let x0 = s.i32(); w.bits_per_sample(x0); out.push((b"BitsPerSample".to_vec(), V::Int(x0))); }
        2 => { let b0 = s.string(); let (x0, e0) = en_interpolation_order(s, &b0); w.order(x0); out.push((b"Order".to_vec(), e0.clone())); }
        3 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.f32()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.encode(r0.iter().map(|r| *r)); out.push((b"Encode".to_vec(), V::Arr([e0].concat()))); }
        4 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.f32()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.decode(r0.iter().map(|r| *r)); out.push((b"Decode".to_vec(), V::Arr([e0].concat()))); }
        5 => { let b0 = s.string(); let (x0, e0) = en_filter(s, &b0); w.filter(x0); out.push((b"Filter".to_vec(), e0.clone())); }
        6 => {  let e = { let u = w.decode_parms(); sub_decode_parms(u, s, d) }; out.push((b"DecodeParms".to_vec(), e)); }
        _ => {}
    }
}
pub fn fill_sampled_function(w: &mut SampledFunction<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_SAMPLED_FUNCTION > 0 { arm_sampled_function(w, k % N_SET_SAMPLED_FUNCTION, s, d - 1, out); }
    }
}
pub fn init_sampled_function() -> Entries { vec![(b"FunctionType".to_vec(), V::Int(0))] }
pub fn sub_sampled_function(mut w: SampledFunction<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_sampled_function();
    fill_sampled_function(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_EXPONENTIAL_FUNCTION: usize = 3;
pub const NAMES_EXPONENTIAL_FUNCTION: &[&str] = &["c0", "c1", "n"];
fn arm_exponential_function(w: &mut ExponentialFunction<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.f32()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.c0(r0.iter().map(|r| *r)); out.push((b"C0".to_vec(), V::Arr([e0].concat()))); }
        1 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.f32()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.c1(r0.iter().map(|r| *r)); out.push((b"C1".to_vec(), V::Arr([e0].concat()))); }
        2 => { let x0 = s.f32(); w.n(x0); out.push((b"N".to_vec(), V::Real(x0))); }
        _ => {}
    }
}
pub fn fill_exponential_function(w: &mut ExponentialFunction<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_EXPONENTIAL_FUNCTION > 0 { arm_exponential_function(w, k % N_SET_EXPONENTIAL_FUNCTION, s, d - 1, out); }
    }
}
pub fn init_exponential_function() -> Entries { vec![(b"FunctionType".to_vec(), V::Int(2))] }
pub fn sub_exponential_function(mut w: ExponentialFunction<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_exponential_function();
    fill_exponential_function(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_STITCHING_FUNCTION: usize = 3;
pub const NAMES_STITCHING_FUNCTION: &[&str] = &["functions", "bounds", "encode"];
fn arm_stitching_function(w: &mut StitchingFunction<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.reference()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Ref(*r)).collect(); w.functions(r0.iter().map(|r| Ref::new(*r))); out.push((b"Functions".to_vec(), V::Arr([e0].concat()))); }
        1 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.f32()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.bounds(r0.iter().map(|r| *r)); out.push((b"Bounds".to_vec(), V::Arr([e0].concat()))); }
        2 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.f32()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.encode(r0.iter().map(|r| *r)); out.push((b"Encode".to_vec(), V::Arr([e0].concat()))); }
        _ => {}
    }
}
pub fn fill_stitching_function(w: &mut StitchingFunction<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_STITCHING_FUNCTION > 0 { arm_stitching_function(w, k % N_SET_STITCHING_FUNCTION, s, d - 1, out); }
    }
}
pub fn init_stitching_function() -> Entries { vec![(b"FunctionType".to_vec(), V::Int(3))] }
pub fn sub_stitching_function(mut w: StitchingFunction<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_stitching_function();
    fill_stitching_function(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_POST_SCRIPT_FUNCTION: usize = 2;
pub const NAMES_POST_SCRIPT_FUNCTION: &[&str] = &["filter", "decode_parms"];
fn arm_post_script_function(w: &mut PostScriptFunction<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let b0 = s.string(); let (x0, e0) = en_filter(s, &b0); w.filter(x0); out.push((b"Filter".to_vec(), e0.clone())); }
        1 => {  let e = { let u = w.decode_parms(); sub_decode_parms(u, s, d) }; out.push((b"DecodeParms".to_vec(), e)); }
        _ => {}
    }
}
pub fn fill_post_script_function(w: &mut PostScriptFunction<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_POST_SCRIPT_FUNCTION > 0 { arm_post_script_function(w, k % N_SET_POST_SCRIPT_FUNCTION, s, d - 1, out); }
    }
}
pub fn init_post_script_function() -> Entries { vec![(b"FunctionType".to_vec(), V::Int(4))] }
pub fn sub_post_script_function(mut w: PostScriptFunction<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_post_script_function();
    fill_post_script_function(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_DECODE_PARMS: usize = 16;
pub const NAMES_DECODE_PARMS: &[&str] = &["columns", "k", "end_of_line", "encoded_byte_align", "rows", "end_of_block", "black_is_1", "damaged_rows_before_error", "jbig2_globals", "crypt_type", "name", "predictor", "colors", "bits_per_component", "early_change", "color_transform"];
fn arm_decode_parms(w: &mut DecodeParms<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = s.i32(); w.columns(x0); out.push((b"Columns".to_vec(), V::Int(x0))); }
        1 => { let x0 = s.i32(); w.k(x0); out.push((b"K".to_vec(), V::Int(x0))); }
        2 => { let x0 = s.next() % 2 == 1; w.end_of_line(x0); out.push((b"EndOfLine".to_vec(), V::Bool(x0))); }
        3 => { let x0 = s.next() % 2 == 1; w.encoded_byte_align(x0); out.push((b"EncodedByteAlign".to_vec(), V::Bool(x0))); }
        4 => { let x0 = s.i32(); w.rows(x0); out.push((b"Rows".to_vec(), V::Int(x0))); }
        5 => { let x0 = s.next() % 2 == 1; w.end_of_block(x0); out.push((b"EndOfBlock".to_vec(), V::Bool(x0))); }
        6 => { let x0 = s.next() % 2 == 1; w.black_is_1(x0); out.push((b"BlackIs1".to_vec(), V::Bool(x0))); }
        7 => { let x0 = s.i32(); w.damaged_rows_before_error(x0); out.push((b"DamagedRowsBeforeError".to_vec(), V::Int(x0))); }
        8 => { let x0 = s.reference(); w.jbig2_globals(Ref::new(x0)); out.push((b"JBIG2Globals".to_vec(), V::Ref(x0))); }
        9 => {  w.crypt_type(); out.push((b"Type".to_vec(), V::Name(b"CryptFilterDecodeParms".to_vec()))); }
        10 => { let x0 = s.string(); w.name(Name(&x0)); out.push((b"Name".to_vec(), V::Name(x0.clone()))); }
        11 => special::decode_parms_predictor(w, s, d, out),
        12 => special::decode_parms_colors(w, s, d, out),
        13 => special::decode_parms_bits_per_component(w, s, d, out),
        14 => special::decode_parms_early_change(w, s, d, out),
        15 => special::decode_parms_color_transform(w, s, d, out),
        _ => {}
    }
}
pub fn fill_decode_parms(w: &mut DecodeParms<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_DECODE_PARMS > 0 { arm_decode_parms(w, k % N_SET_DECODE_PARMS, s, d - 1, out); }
    }
}
pub fn init_decode_parms() -> Entries { vec![] }
pub fn sub_decode_parms(mut w: DecodeParms<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_decode_parms();
    fill_decode_parms(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_RENDITION: usize = 4;
pub const NAMES_RENDITION: &[&str] = &["subtype", "name", "media_clip", "media_play_params"];
fn arm_rendition(w: &mut Rendition<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let b0 = s.string(); let (x0, e0) = en_rendition_type(s, &b0); w.subtype(x0); out.push((b"S".to_vec(), e0.clone())); }
        1 => { let x0 = text(s); w.name(TextStr(&x0)); out.push((b"N".to_vec(), V::Text(x0.clone()))); }
        2 => {  let e = { let u = w.media_clip(); sub_media_clip(u, s, d) }; out.push((b"C".to_vec(), e)); }
        3 => {  let e = { let u = w.media_play_params(); sub_media_play_params(u, s, d) }; out.push((b"P".to_vec(), e)); }
        _ => {}
    }
}
pub fn fill_rendition(w: &mut Rendition<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_RENDITION > 0 { arm_rendition(w, k % N_SET_RENDITION, s, d - 1, out); }
    }
}
pub fn init_rendition() -> Entries { vec![(b"Type".to_vec(), V::Name(b"Rendition".to_vec()))] }
pub fn sub_rendition(mut w: Rendition<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_rendition();
    fill_rendition(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_MEDIA_CLIP: usize = 6;
pub const NAMES_MEDIA_CLIP: &[&str] = &["subtype", "name", "data", "data_type", "permissions", "alt_texts"];
fn arm_media_clip(w: &mut MediaClip<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let b0 = s.string(); let (x0, e0) = en_media_clip_type(s, &b0); w.subtype(x0); out.push((b"S".to_vec(), e0.clone())); }
        1 => { let x0 = text(s); w.name(TextStr(&x0)); out.push((b"N".to_vec(), V::Text(x0.clone()))); }
        2 => {  let e = { let u = w.data(); sub_file_spec(u, s, d) }; out.push((b"D".to_vec(), e)); }
        3 => { let x0 = s.string(); w.data_type(Str(&x0)); out.push((b"CT".to_vec(), V::Str(x0.clone()))); }
        4 => {  let e = { let u = w.permissions(); sub_media_permissions(u, s, d) }; out.push((b"P".to_vec(), e)); }
        5 => { let r0: Vec<_> = (0..s.count(5)).map(|_| text(s)).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Text(r.clone())).collect(); w.alt_texts(r0.iter().map(|r| TextStr(r))); out.push((b"Alt".to_vec(), V::Arr([e0].concat()))); }
        _ => {}
    }
}
pub fn fill_media_clip(w: &mut MediaClip<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_MEDIA_CLIP > 0 { arm_media_clip(w, k % N_SET_MEDIA_CLIP, s, d - 1, out); }
    }
}
pub fn init_media_clip() -> Entries { vec![(b"Type".to_vec(), V::Name(b"MediaClip".to_vec()))] }
pub fn sub_media_clip(mut w: MediaClip<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_media_clip();
    fill_media_clip(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_MEDIA_PLAY_PARAMS: usize = 1;
pub const NAMES_MEDIA_PLAY_PARAMS: &[&str] = &["controls"];
fn arm_media_play_params(w: &mut MediaPlayParams<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => special::media_play_params_controls(w, s, d, out),
        _ => {}
    }
}
pub fn fill_media_play_params(w: &mut MediaPlayParams<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_MEDIA_PLAY_PARAMS > 0 { arm_media_play_params(w, k % N_SET_MEDIA_PLAY_PARAMS, s, d - 1, out); }
    }
}
pub fn init_media_play_params() -> Entries { vec![(b"Type".to_vec(), V::Name(b"MediaPlayParams".to_vec()))] }
pub fn sub_media_play_params(mut w: MediaPlayParams<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_media_play_params();
    fill_media_play_params(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_MEDIA_PERMISSIONS: usize = 1;
pub const NAMES_MEDIA_PERMISSIONS: &[&str] = &["temp_file"];
fn arm_media_permissions(w: &mut MediaPermissions<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let b0 = s.string(); let (x0, e0) = en_temp_file_type(s, &b0); w.temp_file(x0); out.push((b"TF".to_vec(), e0.clone())); }
        _ => {}
    }
}
pub fn fill_media_permissions(w: &mut MediaPermissions<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_MEDIA_PERMISSIONS > 0 { arm_media_permissions(w, k % N_SET_MEDIA_PERMISSIONS, s, d - 1, out); }
    }
}
pub fn init_media_permissions() -> Entries { vec![(b"Type".to_vec(), V::Name(b"MediaPermissions".to_vec()))] }
pub fn sub_media_permissions(mut w: MediaPermissions<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_media_permissions();
    fill_media_permissions(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_CATALOG: usize = 19;
pub const NAMES_CATALOG: &[&str] = &["pages", "page_layout", "page_labels", "page_mode", "viewer_preferences", "names", "destinations", "outlines", "struct_tree_root", "mark_info", "lang", "additional_actions", "form", "metadata", "extensions", "separation_info", "output_intents", "associated_files", "version"];
fn arm_catalog(w: &mut Catalog<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = s.reference(); w.pages(Ref::new(x0)); out.push((b"Pages".to_vec(), V::Ref(x0))); }
        1 => { let b0 = s.string(); let (x0, e0) = en_page_layout(s, &b0); w.page_layout(x0); out.push((b"PageLayout".to_vec(), e0.clone())); }
        2 => {  let e = { let u = w.page_labels(); sub_number_tree(u, s, d) }; out.push((b"PageLabels".to_vec(), e)); }
        3 => { let b0 = s.string(); let (x0, e0) = en_page_mode(s, &b0); w.page_mode(x0); out.push((b"PageMode".to_vec(), e0.clone())); }
        4 => {  let e = { let u = w.viewer_preferences(); sub_viewer_preferences(u, s, d) }; out.push((b"ViewerPreferences".to_vec(), e)); }
        5 => {  let e = { let u = w.names(); sub_names(u, s, d) }; out.push((b"Names".to_vec(), e)); }
        6 => { let x0 = s.reference(); w.destinations(Ref::new(x0)); out.push((b"Dests".to_vec(), V::Ref(x0))); }
        7 => { let x0 = s.reference(); w.outlines(Ref::new(x0)); out.push((b"Outlines".to_vec(), V::Ref(x0))); }
        8 => {  let e = { let u = w.struct_tree_root(); sub_struct_tree_root(u, s, d) }; out.push((b"StructTreeRoot".to_vec(), e)); }
        9 => {  let e = { let u = w.mark_info(); sub_mark_info(u, s, d) }; out.push((b"MarkInfo".to_vec(), e)); }
        10 => { let x0 = text(s); w.lang(TextStr(&x0)); out.push((b"Lang".to_vec(), V::Text(x0.clone()))); }
        11 => {  let e = { let u = w.additional_actions(); sub_additional_actions(u, s, d) }; out.push((b"AA".to_vec(), e)); }
        12 => {  let e = { let u = w.form(); sub_form(u, s, d) }; out.push((b"AcroForm".to_vec(), e)); }
        13 => { let x0 = s.reference(); w.metadata(Ref::new(x0)); out.push((b"Metadata".to_vec(), V::Ref(x0))); }
        14 => {  let e = { let u = w.extensions(); special::typed_dict(u, s, d, |u, k, s, d| { let u = u.insert(Name(k)); sub_developer_extension(u, s, d) }) }; out.push((b"Extensions".to_vec(), e)); }
        15 => {  let e = { let u = w.separation_info(); sub_separation_info(u, s, d) }; out.push((b"SeparationInfo".to_vec(), e)); }
        16 => {  let e = { let u = w.output_intents(); special::typed_array(u, s, d, |u, s, d| { let u = u.push(); sub_output_intent(u, s, d) }) }; out.push((b"OutputIntents".to_vec(), e)); }
        17 => {  let e = { let u = w.associated_files(); special::typed_array(u, s, d, |u, s, d| { let u = u.push(); sub_file_spec(u, s, d) }) }; out.push((b"AF".to_vec(), e)); }
        18 => special::catalog_version(w, s, d, out),
        _ => {}
    }
}
pub fn fill_catalog(w: &mut Catalog<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_CATALOG > 0 { arm_catalog(w, k % N_SET_CATALOG, s, d - 1, out); }
    }
}
pub fn init_catalog() -> Entries { vec![(b"Type".to_vec(), V::Name(b"Catalog".to_vec()))] }
pub fn sub_catalog(mut w: Catalog<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_catalog();
    fill_catalog(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_DEVELOPER_EXTENSION: usize = 2;
pub const NAMES_DEVELOPER_EXTENSION: &[&str] = &["extension_level", "base_version"];
fn arm_developer_extension(w: &mut DeveloperExtension<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = s.i32(); w.extension_level(x0); out.push((b"ExtensionLevel".to_vec(), V::Int(x0))); }
        1 => special::developer_extension_base_version(w, s, d, out),
        _ => {}
    }
}
pub fn fill_developer_extension(w: &mut DeveloperExtension<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_DEVELOPER_EXTENSION > 0 { arm_developer_extension(w, k % N_SET_DEVELOPER_EXTENSION, s, d - 1, out); }
    }
}
pub fn init_developer_extension() -> Entries { vec![(b"Type".to_vec(), V::Name(b"DeveloperExtensions".to_vec()))] }
pub fn sub_developer_extension(mut w: DeveloperExtension<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_developer_extension();
    fill_developer_extension(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_VIEWER_PREFERENCES: usize = 7;
pub const NAMES_VIEWER_PREFERENCES: &[&str] = &["hide_toolbar", "hide_menubar", "fit_window", "center_window", "display_doc_title", "direction", "non_full_screen_page_mode"];
fn arm_viewer_preferences(w: &mut ViewerPreferences<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = s.next() % 2 == 1; w.hide_toolbar(x0); out.push((b"HideToolbar".to_vec(), V::Bool(x0))); }
        1 => { let x0 = s.next() % 2 == 1; w.hide_menubar(x0); out.push((b"HideMenubar".to_vec(), V::Bool(x0))); }
        2 => { let x0 = s.next() % 2 == 1; w.fit_window(x0); out.push((b"FitWindow".to_vec(), V::Bool(x0))); }
        3 => { let x0 = s.next() % 2 == 1; w.center_window(x0); out.push((b"CenterWindow".to_vec(), V::Bool(x0))); }
        4 => { let x0 = s.next() % 2 == 1; w.display_doc_title(x0); out.push((b"DisplayDocTitle".to_vec(), V::Bool(x0))); }
        5 => { let b0 = s.string(); let (x0, e0) = en_direction(s, &b0); w.direction(x0); out.push((b"Direction".to_vec(), e0.clone())); }
        6 => special::viewer_preferences_non_full_screen_page_mode(w, s, d, out),
        _ => {}
    }
}
pub fn fill_viewer_preferences(w: &mut ViewerPreferences<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_VIEWER_PREFERENCES > 0 { arm_viewer_preferences(w, k % N_SET_VIEWER_PREFERENCES, s, d - 1, out); }
    }
}
pub fn init_viewer_preferences() -> Entries { vec![] }
pub fn sub_viewer_preferences(mut w: ViewerPreferences<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_viewer_preferences();
    fill_viewer_preferences(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_STRUCT_TREE_ROOT: usize = 10;
pub const NAMES_STRUCT_TREE_ROOT: &[&str] = &["child", "children", "id_tree", "parent_tree", "parent_tree_next_key", "role_map", "class_map", "namespaces", "pronunciation_lexicon", "associated_files"];
fn arm_struct_tree_root(w: &mut StructTreeRoot<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = s.reference(); w.child(Ref::new(x0)); out.push((b"K".to_vec(), V::Ref(x0))); }
        1 => {  let e = { let u = w.children(); special::typed_array(u, s, d, |u, s, d| { let x = s.reference(); u.item(Ref::new(x)); let _ = d; V::Ref(x) }) }; out.push((b"K".to_vec(), e)); }
        2 => {  let e = { let u = w.id_tree(); sub_name_tree(u, s, d) }; out.push((b"IDTree".to_vec(), e)); }
        3 => {  let e = { let u = w.parent_tree(); sub_number_tree(u, s, d) }; out.push((b"ParentTree".to_vec(), e)); }
        4 => { let x0 = s.i32(); w.parent_tree_next_key(x0); out.push((b"ParentTreeNextKey".to_vec(), V::Int(x0))); }
        5 => {  let e = { let u = w.role_map(); sub_role_map(u, s, d) }; out.push((b"RoleMap".to_vec(), e)); }
        6 => {  let e = { let u = w.class_map(); sub_class_map(u, s, d) }; out.push((b"ClassMap".to_vec(), e)); }
        7 => {  let e = { let u = w.namespaces(); special::typed_array(u, s, d, |u, s, d| { let x = s.reference(); u.item(Ref::new(x)); let _ = d; V::Ref(x) }) }; out.push((b"Namespaces".to_vec(), e)); }
        8 => {  let e = { let u = w.pronunciation_lexicon(); special::typed_array(u, s, d, |u, s, d| { let x = s.reference(); u.item(Ref::new(x)); let _ = d; V::Ref(x) }) }; out.push((b"PronunciationLexicon".to_vec(), e)); }
        9 => {  let e = { let u = w.associated_files(); special::typed_array(u, s, d, |u, s, d| { let u = u.push(); sub_file_spec(u, s, d) }) }; out.push((b"AF".to_vec(), e)); }
        _ => {}
    }
}
pub fn fill_struct_tree_root(w: &mut StructTreeRoot<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_STRUCT_TREE_ROOT > 0 { arm_struct_tree_root(w, k % N_SET_STRUCT_TREE_ROOT, s, d - 1, out); }
    }
}
pub fn init_struct_tree_root() -> Entries { vec![(b"Type".to_vec(), V::Name(b"StructTreeRoot".to_vec()))] }
pub fn sub_struct_tree_root(mut w: StructTreeRoot<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_struct_tree_root();
    fill_struct_tree_root(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_STRUCT_ELEMENT: usize = 23;
pub const NAMES_STRUCT_ELEMENT: &[&str] = &["kind", "custom_kind", "parent", "id", "refs", "page", "child", "marked_content_child", "object_child", "children", "attributes", "attribute_class", "revision", "title", "lang", "alt", "expanded", "actual_text", "associated_files", "namespace", "phonetic_alphabet", "phoneme", "kind_2"];
fn arm_struct_element(w: &mut StructElement<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let b0 = s.string(); let (x0, e0) = en_struct_role(s, &b0); w.kind(x0); out.push((b"S".to_vec(), e0.clone())); }
        1 => { let x0 = s.string(); w.custom_kind(Name(&x0)); out.push((b"S".to_vec(), V::Name(x0.clone()))); }
        2 => { let x0 = s.reference(); w.parent(Ref::new(x0)); out.push((b"P".to_vec(), V::Ref(x0))); }
        3 => { let x0 = s.string(); w.id(Str(&x0)); out.push((b"ID".to_vec(), V::Str(x0.clone()))); }
        4 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.reference()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Ref(*r)).collect(); w.refs(r0.iter().map(|r| Ref::new(*r))); out.push((b"Ref".to_vec(), V::Arr([e0].concat()))); }
        5 => { let x0 = s.reference(); w.page(Ref::new(x0)); out.push((b"Pg".to_vec(), V::Ref(x0))); }
        6 => { let x0 = s.reference(); w.child(Ref::new(x0)); out.push((b"K".to_vec(), V::Ref(x0))); }
        7 => {  let e = { let u = w.marked_content_child(); sub_marked_ref(u, s, d) }; out.push((b"K".to_vec(), e)); }
        8 => {  let e = { let u = w.object_child(); sub_object_ref(u, s, d) }; out.push((b"K".to_vec(), e)); }
        9 => {  let e = { let u = w.children(); sub_struct_children(u, s, d) }; out.push((b"K".to_vec(), e)); }
        10 => {  let e = { let u = w.attributes(); special::typed_array(u, s, d, |u, s, d| { let u = u.push(); special::sub_attributes(u, s, d) }) }; out.push((b"A".to_vec(), e)); }
        11 => {  let e = { let u = w.attribute_class(); special::typed_array(u, s, d, |u, s, d| { let x = s.string(); let l: &'static [u8] = Box::leak(x.clone().into_boxed_slice()); let _ = d; u.item(Name(l)); V::Name(x) }) }; out.push((b"C".to_vec(), e)); }
        12 => { let x0 = s.i32(); w.revision(x0); out.push((b"R".to_vec(), V::Int(x0))); }
        13 => { let x0 = text(s); w.title(TextStr(&x0)); out.push((b"T".to_vec(), V::Text(x0.clone()))); }
        14 => { let x0 = text(s); w.lang(TextStr(&x0)); out.push((b"Lang".to_vec(), V::Text(x0.clone()))); }
        15 => { let x0 = text(s); w.alt(TextStr(&x0)); out.push((b"Alt".to_vec(), V::Text(x0.clone()))); }
        16 => { let x0 = text(s); w.expanded(TextStr(&x0)); out.push((b"E".to_vec(), V::Text(x0.clone()))); }
        17 => { let x0 = text(s); w.actual_text(TextStr(&x0)); out.push((b"ActualText".to_vec(), V::Text(x0.clone()))); }
        18 => {  let e = { let u = w.associated_files(); special::typed_array(u, s, d, |u, s, d| { let u = u.push(); sub_file_spec(u, s, d) }) }; out.push((b"AF".to_vec(), e)); }
        19 => { let x0 = s.reference(); w.namespace(Ref::new(x0)); out.push((b"NS".to_vec(), V::Ref(x0))); }
        20 => { let b0 = s.string(); let (x0, e0) = en_phonetic_alphabet(s, &b0); w.phonetic_alphabet(x0); out.push((b"PhoneticAlphabet".to_vec(), e0.clone())); }
        21 => { let x0 = text(s); w.phoneme(TextStr(&x0)); out.push((b"Phoneme".to_vec(), V::Text(x0.clone()))); }
        22 => special::struct_element_kind_2(w, s, d, out),
        _ => {}
    }
}
pub fn fill_struct_element(w: &mut StructElement<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_STRUCT_ELEMENT > 0 { arm_struct_element(w, k % N_SET_STRUCT_ELEMENT, s, d - 1, out); }
    }
}
pub fn init_struct_element() -> Entries { vec![(b"Type".to_vec(), V::Name(b"StructElem".to_vec()))] }
pub fn sub_struct_element(mut w: StructElement<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_struct_element();
    fill_struct_element(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_STRUCT_CHILDREN: usize = 4;
pub const NAMES_STRUCT_CHILDREN: &[&str] = &["struct_element", "marked_content_id", "marked_content_ref", "object_ref"];
fn arm_struct_children(w: &mut StructChildren<'_>, k: usize, s: &mut Src, d: usize, out: &mut Vec<V>) {
    match k {
        0 => { let x0 = s.reference(); w.struct_element(Ref::new(x0)); out.extend([vec![V::Ref(x0)]].concat()); }
        1 => { let x0 = s.i32(); w.marked_content_id(x0); out.extend([vec![V::Int(x0)]].concat()); }
        2 => special::struct_children_marked_content_ref(w, s, d, out),
        3 => special::struct_children_object_ref(w, s, d, out),
        _ => {}
    }
}
pub fn fill_struct_children(w: &mut StructChildren<'_>, s: &mut Src, d: usize, out: &mut Vec<V>) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_STRUCT_CHILDREN > 0 { arm_struct_children(w, k % N_SET_STRUCT_CHILDREN, s, d - 1, out); }
    }
}
pub fn init_struct_children() -> Vec<V> { vec![] }
pub fn sub_struct_children(mut w: StructChildren<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_struct_children();
    fill_struct_children(&mut w, s, d, &mut out);
    V::Arr(out)
}
pub const N_SET_MARKED_REF: usize = 4;
pub const NAMES_MARKED_REF: &[&str] = &["page", "stream", "stream_owner", "marked_content_id"];
fn arm_marked_ref(w: &mut MarkedRef<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = s.reference(); w.page(Ref::new(x0)); out.push((b"Pg".to_vec(), V::Ref(x0))); }
        1 => { let x0 = s.reference(); w.stream(Ref::new(x0)); out.push((b"Stm".to_vec(), V::Ref(x0))); }
        2 => { let x0 = s.reference(); w.stream_owner(Ref::new(x0)); out.push((b"StmOwn".to_vec(), V::Ref(x0))); }
        3 => { let x0 = s.i32(); w.marked_content_id(x0); out.push((b"MCID".to_vec(), V::Int(x0))); }
        _ => {}
    }
}
pub fn fill_marked_ref(w: &mut MarkedRef<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_MARKED_REF > 0 { arm_marked_ref(w, k % N_SET_MARKED_REF, s, d - 1, out); }
    }
}
pub fn init_marked_ref() -> Entries { vec![(b"Type".to_vec(), V::Name(b"MCR".to_vec()))] }
pub fn sub_marked_ref(mut w: MarkedRef<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_marked_ref();
    fill_marked_ref(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_OBJECT_REF: usize = 2;
pub const NAMES_OBJECT_REF: &[&str] = &["page", "object"];
fn arm_object_ref(w: &mut ObjectRef<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = s.reference(); w.page(Ref::new(x0)); out.push((b"Pg".to_vec(), V::Ref(x0))); }
        1 => { let x0 = s.reference(); w.object(Ref::new(x0)); out.push((b"Obj".to_vec(), V::Ref(x0))); }
        _ => {}
    }
}
pub fn fill_object_ref(w: &mut ObjectRef<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_OBJECT_REF > 0 { arm_object_ref(w, k % N_SET_OBJECT_REF, s, d - 1, out); }
    }
}
pub fn init_object_ref() -> Entries { vec![(b"Type".to_vec(), V::Name(b"OBJR".to_vec()))] }
pub fn sub_object_ref(mut w: ObjectRef<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_object_ref();
    fill_object_ref(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_ROLE_MAP: usize = 1;
pub const NAMES_ROLE_MAP: &[&str] = &["insert"];
fn arm_role_map(w: &mut RoleMap<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => special::role_map_insert(w, s, d, out),
        _ => {}
    }
}
pub fn fill_role_map(w: &mut RoleMap<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_ROLE_MAP > 0 { arm_role_map(w, k % N_SET_ROLE_MAP, s, d - 1, out); }
    }
}
pub fn init_role_map() -> Entries { vec![] }
pub fn sub_role_map(mut w: RoleMap<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_role_map();
    fill_role_map(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_CLASS_MAP: usize = 2;
pub const NAMES_CLASS_MAP: &[&str] = &["single", "multiple"];
fn arm_class_map(w: &mut ClassMap<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => special::class_map_single(w, s, d, out),
        1 => special::class_map_multiple(w, s, d, out),
        _ => {}
    }
}
pub fn fill_class_map(w: &mut ClassMap<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_CLASS_MAP > 0 { arm_class_map(w, k % N_SET_CLASS_MAP, s, d - 1, out); }
    }
}
pub fn init_class_map() -> Entries { vec![] }
pub fn sub_class_map(mut w: ClassMap<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_class_map();
    fill_class_map(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_NAMESPACE: usize = 3;
pub const NAMES_NAMESPACE: &[&str] = &["ns", "schema", "role_map_ns"];
fn arm_namespace(w: &mut Namespace<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = text(s); w.ns(TextStr(&x0)); out.push((b"NS".to_vec(), V::Text(x0.clone()))); }
        1 => {  let e = { let u = w.schema(); sub_file_spec(u, s, d) }; out.push((b"Schema".to_vec(), e)); }
        2 => {  let e = { let u = w.role_map_ns(); sub_namespace_role_map(u, s, d) }; out.push((b"RoleMapNS".to_vec(), e)); }
        _ => {}
    }
}
pub fn fill_namespace(w: &mut Namespace<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_NAMESPACE > 0 { arm_namespace(w, k % N_SET_NAMESPACE, s, d - 1, out); }
    }
}
pub fn init_namespace() -> Entries { vec![(b"Type".to_vec(), V::Name(b"Namespace".to_vec()))] }
pub fn sub_namespace(mut w: Namespace<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_namespace();
    fill_namespace(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_NAMESPACE_ROLE_MAP: usize = 3;
pub const NAMES_NAMESPACE_ROLE_MAP: &[&str] = &["to_pdf_1_7", "to_namespace", "to_pdf_2_0"];
fn arm_namespace_role_map(w: &mut NamespaceRoleMap<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => special::namespace_role_map_to_pdf_1_7(w, s, d, out),
        1 => special::namespace_role_map_to_namespace(w, s, d, out),
        2 => special::namespace_role_map_to_pdf_2_0(w, s, d, out),
        _ => {}
    }
}
pub fn fill_namespace_role_map(w: &mut NamespaceRoleMap<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_NAMESPACE_ROLE_MAP > 0 { arm_namespace_role_map(w, k % N_SET_NAMESPACE_ROLE_MAP, s, d - 1, out); }
    }
}
pub fn init_namespace_role_map() -> Entries { vec![] }
pub fn sub_namespace_role_map(mut w: NamespaceRoleMap<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_namespace_role_map();
    fill_namespace_role_map(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_MARK_INFO: usize = 3;
pub const NAMES_MARK_INFO: &[&str] = &["marked", "user_properties", "suspects"];
fn arm_mark_info(w: &mut MarkInfo<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = s.next() % 2 == 1; w.marked(x0); out.push((b"Marked".to_vec(), V::Bool(x0))); }
        1 => { let x0 = s.next() % 2 == 1; w.user_properties(x0); out.push((b"UserProperties".to_vec(), V::Bool(x0))); }
        2 => { let x0 = s.next() % 2 == 1; w.suspects(x0); out.push((b"Suspects".to_vec(), V::Bool(x0))); }
        _ => {}
    }
}
pub fn fill_mark_info(w: &mut MarkInfo<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_MARK_INFO > 0 { arm_mark_info(w, k % N_SET_MARK_INFO, s, d - 1, out); }
    }
}
pub fn init_mark_info() -> Entries { vec![] }
pub fn sub_mark_info(mut w: MarkInfo<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_mark_info();
    fill_mark_info(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_PAGE_LABEL: usize = 3;
pub const NAMES_PAGE_LABEL: &[&str] = &["style", "prefix", "offset"];
fn arm_page_label(w: &mut PageLabel<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let b0 = s.string(); let (x0, e0) = en_numbering_style(s, &b0); w.style(x0); out.push((b"S".to_vec(), e0.clone())); }
        1 => { let x0 = text(s); w.prefix(TextStr(&x0)); out.push((b"P".to_vec(), V::Text(x0.clone()))); }
        2 => { let x0 = s.i32(); w.offset(x0); out.push((b"St".to_vec(), V::Int(x0))); }
        _ => {}
    }
}
pub fn fill_page_label(w: &mut PageLabel<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_PAGE_LABEL > 0 { arm_page_label(w, k % N_SET_PAGE_LABEL, s, d - 1, out); }
    }
}
pub fn init_page_label() -> Entries { vec![(b"Type".to_vec(), V::Name(b"PageLabel".to_vec()))] }
pub fn sub_page_label(mut w: PageLabel<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_page_label();
    fill_page_label(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_DOCUMENT_INFO: usize = 9;
pub const NAMES_DOCUMENT_INFO: &[&str] = &["title", "author", "subject", "keywords", "creator", "producer", "creation_date", "modified_date", "trapped"];
fn arm_document_info(w: &mut DocumentInfo<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = text(s); w.title(TextStr(&x0)); out.push((b"Title".to_vec(), V::Text(x0.clone()))); }
        1 => { let x0 = text(s); w.author(TextStr(&x0)); out.push((b"Author".to_vec(), V::Text(x0.clone()))); }
        2 => { let x0 = text(s); w.subject(TextStr(&x0)); out.push((b"Subject".to_vec(), V::Text(x0.clone()))); }
        3 => { let x0 = text(s); w.keywords(TextStr(&x0)); out.push((b"Keywords".to_vec(), V::Text(x0.clone()))); }
        4 => { let x0 = text(s); w.creator(TextStr(&x0)); out.push((b"Creator".to_vec(), V::Text(x0.clone()))); }
        5 => { let x0 = text(s); w.producer(TextStr(&x0)); out.push((b"Producer".to_vec(), V::Text(x0.clone()))); }
        6 => { let (x0, e0) = date(s); w.creation_date(x0); out.push((b"CreationDate".to_vec(), e0)); }
        7 => { let (x0, e0) = date(s); w.modified_date(x0); out.push((b"ModDate".to_vec(), e0)); }
        8 => { let b0 = s.string(); let (x0, e0) = en_trapping_status(s, &b0); w.trapped(x0); out.push((b"Trapped".to_vec(), e0.clone())); }
        _ => {}
    }
}
pub fn fill_document_info(w: &mut DocumentInfo<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_DOCUMENT_INFO > 0 { arm_document_info(w, k % N_SET_DOCUMENT_INFO, s, d - 1, out); }
    }
}
pub fn init_document_info() -> Entries { vec![] }
pub fn sub_document_info(mut w: DocumentInfo<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_document_info();
    fill_document_info(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_PAGES: usize = 5;
pub const NAMES_PAGES: &[&str] = &["parent", "kids", "count", "media_box", "resources"];
fn arm_pages(w: &mut Pages<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = s.reference(); w.parent(Ref::new(x0)); out.push((b"Parent".to_vec(), V::Ref(x0))); }
        1 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.reference()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Ref(*r)).collect(); w.kids(r0.iter().map(|r| Ref::new(*r))); out.push((b"Kids".to_vec(), V::Arr([e0].concat()))); }
        2 => { let x0 = s.i32(); w.count(x0); out.push((b"Count".to_vec(), V::Int(x0))); }
        3 => { let x0 = [s.f32(), s.f32(), s.f32(), s.f32()]; w.media_box(Rect::new(x0[0], x0[1], x0[2], x0[3])); out.push((b"MediaBox".to_vec(), V::Rect(x0))); }
        4 => {  let e = { let u = w.resources(); sub_resources(u, s, d) }; out.push((b"Resources".to_vec(), e)); }
        _ => {}
    }
}
pub fn fill_pages(w: &mut Pages<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_PAGES > 0 { arm_pages(w, k % N_SET_PAGES, s, d - 1, out); }
    }
}
pub fn init_pages() -> Entries { vec![(b"Type".to_vec(), V::Name(b"Pages".to_vec()))] }
pub fn sub_pages(mut w: Pages<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_pages();
    fill_pages(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_PAGE: usize = 22;
pub const NAMES_PAGE: &[&str] = &["parent", "last_modified", "media_box", "crop_box", "bleed_box", "trim_box", "art_box", "resources", "contents", "contents_array", "rotate", "group", "thumbnail", "duration", "transition", "annotations", "struct_parents", "tab_order", "user_unit", "additional_actions", "metadata", "associated_files"];
fn arm_page(w: &mut Page<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = s.reference(); w.parent(Ref::new(x0)); out.push((b"Parent".to_vec(), V::Ref(x0))); }
        1 => { let (x0, e0) = date(s); w.last_modified(x0); out.push((b"LastModified".to_vec(), e0)); }
        2 => { let x0 = [s.f32(), s.f32(), s.f32(), s.f32()]; w.media_box(Rect::new(x0[0], x0[1], x0[2], x0[3])); out.push((b"MediaBox".to_vec(), V::Rect(x0))); }
        3 => { let x0 = [s.f32(), s.f32(), s.f32(), s.f32()]; w.crop_box(Rect::new(x0[0], x0[1], x0[2], x0[3])); out.push((b"CropBox".to_vec(), V::Rect(x0))); }
        4 => { let x0 = [s.f32(), s.f32(), s.f32(), s.f32()]; w.bleed_box(Rect::new(x0[0], x0[1], x0[2], x0[3])); out.push((b"BleedBox".to_vec(), V::Rect(x0))); }
        5 => { let x0 = [s.f32(), s.f32(), s.f32(), s.f32()]; w.trim_box(Rect::new(x0[0], x0[1], x0[2], x0[3])); out.push((b"TrimBox".to_vec(), V::Rect(x0))); }
        6 => { let x0 = [s.f32(), s.f32(), s.f32(), s.f32()]; w.art_box(Rect::new(x0[0], x0[1], x0[2], x0[3])); out.push((b"ArtBox".to_vec(), V::Rect(x0))); }
        7 => {  let e = { let u = w.resources(); sub_resources(u, s, d) }; out.push((b"Resources".to_vec(), e)); }
        8 => { let x0 = s.reference(); w.contents(Ref::new(x0)); out.push((b"Contents".to_vec(), V::Ref(x0))); }
        9 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.reference()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Ref(*r)).collect(); w.contents_array(r0.iter().map(|r| Ref::new(*r))); out.push((b"Contents".to_vec(), V::Arr([e0].concat()))); }
        10 => { let x0 = s.i32(); w.rotate(x0); out.push((b"Rotate".to_vec(), V::Int(x0))); }
        11 => {  let e = { let u = w.group(); sub_group(u, s, d) }; out.push((b"Group".to_vec(), e)); }
        12 => { let x0 = s.reference(); w.thumbnail(Ref::new(x0)); out.push((b"Thumb".to_vec(), V::Ref(x0))); }
        13 => { let x0 = s.f32(); w.duration(x0); out.push((b"Dur".to_vec(), V::Real(x0))); }
        14 => {  let e = { let u = w.transition(); sub_transition(u, s, d) }; out.push((b"Trans".to_vec(), e)); }
        15 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.reference()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Ref(*r)).collect(); w.annotations(r0.iter().map(|r| Ref::new(*r))); out.push((b"Annots".to_vec(), V::Arr([e0].concat()))); }
        16 => { let x0 = s.i32(); w.struct_parents(x0); out.push((b"StructParents".to_vec(), V::Int(x0))); }
        17 => { let b0 = s.string(); let (x0, e0) = en_tab_order(s, &b0); w.tab_order(x0); out.push((b"Tabs".to_vec(), e0.clone())); }
        18 => { let x0 = s.f32(); w.user_unit(x0); out.push((b"UserUnit".to_vec(), V::Real(x0))); }
        19 => {  let e = { let u = w.additional_actions(); sub_additional_actions(u, s, d) }; out.push((b"AA".to_vec(), e)); }
        20 => { let x0 = s.reference(); w.metadata(Ref::new(x0)); out.push((b"Metadata".to_vec(), V::Ref(x0))); }
        21 => {  let e = { let u = w.associated_files(); special::typed_array(u, s, d, |u, s, d| { let u = u.push(); sub_file_spec(u, s, d) }) }; out.push((b"AF".to_vec(), e)); }
        _ => {}
    }
}
pub fn fill_page(w: &mut Page<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_PAGE > 0 { arm_page(w, k % N_SET_PAGE, s, d - 1, out); }
    }
}
pub fn init_page() -> Entries { vec![(b"Type".to_vec(), V::Name(b"Page".to_vec()))] }
pub fn sub_page(mut w: Page<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_page();
    fill_page(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_OUTLINE: usize = 3;
pub const NAMES_OUTLINE: &[&str] = &["first", "last", "count"];
fn arm_outline(w: &mut Outline<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = s.reference(); w.first(Ref::new(x0)); out.push((b"First".to_vec(), V::Ref(x0))); }
        1 => { let x0 = s.reference(); w.last(Ref::new(x0)); out.push((b"Last".to_vec(), V::Ref(x0))); }
        2 => special::outline_count(w, s, d, out),
        _ => {}
    }
}
pub fn fill_outline(w: &mut Outline<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_OUTLINE > 0 { arm_outline(w, k % N_SET_OUTLINE, s, d - 1, out); }
    }
}
pub fn init_outline() -> Entries { vec![(b"Type".to_vec(), V::Name(b"Outlines".to_vec()))] }
pub fn sub_outline(mut w: Outline<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_outline();
    fill_outline(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_OUTLINE_ITEM: usize = 11;
pub const NAMES_OUTLINE_ITEM: &[&str] = &["title", "parent", "prev", "next", "first", "last", "count", "dest", "dest_name", "color_rgb", "flags"];
fn arm_outline_item(w: &mut OutlineItem<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = text(s); w.title(TextStr(&x0)); out.push((b"Title".to_vec(), V::Text(x0.clone()))); }
        1 => { let x0 = s.reference(); w.parent(Ref::new(x0)); out.push((b"Parent".to_vec(), V::Ref(x0))); }
        2 => { let x0 = s.reference(); w.prev(Ref::new(x0)); out.push((b"Prev".to_vec(), V::Ref(x0))); }
        3 => { let x0 = s.reference(); w.next(Ref::new(x0)); out.push((b"Next".to_vec(), V::Ref(x0))); }
        4 => { let x0 = s.reference(); w.first(Ref::new(x0)); out.push((b"First".to_vec(), V::Ref(x0))); }
        5 => { let x0 = s.reference(); w.last(Ref::new(x0)); out.push((b"Last".to_vec(), V::Ref(x0))); }
        6 => { let x0 = s.i32(); w.count(x0); out.push((b"Count".to_vec(), V::Int(x0))); }
        7 => {  let e = { let u = w.dest(); special::sub_destination(u, s, d) }; out.push((b"Dest".to_vec(), e)); }
        8 => { let x0 = s.string(); w.dest_name(Name(&x0)); out.push((b"Dest".to_vec(), V::Name(x0.clone()))); }
        9 => { let x0 = s.f32(); let x1 = s.f32(); let x2 = s.f32(); w.color_rgb(x0, x1, x2); out.push((b"C".to_vec(), V::Arr([vec![V::Real(x0)], vec![V::Real(x1)], vec![V::Real(x2)]].concat()))); }
        10 => { let (x0, e0) = fl_outline_item_flags(s); w.flags(x0); out.push((b"F".to_vec(), V::Int(e0))); }
        _ => {}
    }
}
pub fn fill_outline_item(w: &mut OutlineItem<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_OUTLINE_ITEM > 0 { arm_outline_item(w, k % N_SET_OUTLINE_ITEM, s, d - 1, out); }
    }
}
pub fn init_outline_item() -> Entries { vec![] }
pub fn sub_outline_item(mut w: OutlineItem<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_outline_item();
    fill_outline_item(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_NAMES: usize = 10;
pub const NAMES_NAMES: &[&str] = &["destinations", "appearances", "javascript", "pages", "templates", "capture_ids", "capture_urls", "embedded_files", "alternate_presentations", "renditions"];
fn arm_names(w: &mut Names<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => {  let e = { let u = w.destinations(); sub_name_tree(u, s, d) }; out.push((b"Dests".to_vec(), e)); }
        1 => {  let e = { let u = w.appearances(); sub_name_tree(u, s, d) }; out.push((b"AP".to_vec(), e)); }
        2 => {  let e = { let u = w.javascript(); sub_name_tree(u, s, d) }; out.push((b"JavaScript".to_vec(), e)); }
        3 => {  let e = { let u = w.pages(); sub_name_tree(u, s, d) }; out.push((b"Pages".to_vec(), e)); }
        4 => {  let e = { let u = w.templates(); sub_name_tree(u, s, d) }; out.push((b"Templates".to_vec(), e)); }
        5 => {  let e = { let u = w.capture_ids(); sub_name_tree(u, s, d) }; out.push((b"IDS".to_vec(), e)); }
        6 => {  let e = { let u = w.capture_urls(); sub_name_tree(u, s, d) }; out.push((b"URLS".to_vec(), e)); }
        7 => {  let e = { let u = w.embedded_files(); sub_name_tree(u, s, d) }; out.push((b"EmbeddedFiles".to_vec(), e)); }
        8 => {  let e = { let u = w.alternate_presentations(); sub_name_tree(u, s, d) }; out.push((b"AlternatePresentations".to_vec(), e)); }
        9 => {  let e = { let u = w.renditions(); sub_name_tree(u, s, d) }; out.push((b"Renditions".to_vec(), e)); }
        _ => {}
    }
}
pub fn fill_names(w: &mut Names<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_NAMES > 0 { arm_names(w, k % N_SET_NAMES, s, d - 1, out); }
    }
}
pub fn init_names() -> Entries { vec![] }
pub fn sub_names(mut w: Names<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_names();
    fill_names(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_METADATA: usize = 2;
pub const NAMES_METADATA: &[&str] = &["filter", "decode_parms"];
fn arm_metadata(w: &mut Metadata<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let b0 = s.string(); let (x0, e0) = en_filter(s, &b0); w.filter(x0); out.push((b"Filter".to_vec(), e0.clone())); }
        1 => {  let e = { let u = w.decode_parms(); sub_decode_parms(u, s, d) }; out.push((b"DecodeParms".to_vec(), e)); }
        _ => {}
    }
}
pub fn fill_metadata(w: &mut Metadata<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_METADATA > 0 { arm_metadata(w, k % N_SET_METADATA, s, d - 1, out); }
    }
}
pub fn init_metadata() -> Entries { vec![(b"Type".to_vec(), V::Name(b"Metadata".to_vec())), (b"Subtype".to_vec(), V::Name(b"XML".to_vec()))] }
pub fn sub_metadata(mut w: Metadata<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_metadata();
    fill_metadata(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_TRANSITION: usize = 7;
pub const NAMES_TRANSITION: &[&str] = &["style", "duration", "scale", "opaque", "dimension", "direction", "angle"];
fn arm_transition(w: &mut Transition<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let b0 = s.string(); let (x0, e0) = en_transition_style(s, &b0); w.style(x0); out.push((b"S".to_vec(), e0.clone())); }
        1 => { let x0 = s.f32(); w.duration(x0); out.push((b"D".to_vec(), V::Real(x0))); }
        2 => { let x0 = s.f32(); w.scale(x0); out.push((b"SS".to_vec(), V::Real(x0))); }
        3 => { let x0 = s.f32(); w.opaque(x0); out.push((b"B".to_vec(), V::Real(x0))); }
        4 => special::transition_dimension(w, s, d, out),
        5 => special::transition_direction(w, s, d, out),
        6 => special::transition_angle(w, s, d, out),
        _ => {}
    }
}
pub fn fill_transition(w: &mut Transition<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_TRANSITION > 0 { arm_transition(w, k % N_SET_TRANSITION, s, d - 1, out); }
    }
}
pub fn init_transition() -> Entries { vec![(b"Type".to_vec(), V::Name(b"Trans".to_vec()))] }
pub fn sub_transition(mut w: Transition<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_transition();
    fill_transition(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_IMAGE_X_OBJECT: usize = 20;
pub const NAMES_IMAGE_X_OBJECT: &[&str] = &["width", "height", "color_space", "color_space_name", "bits_per_component", "intent", "image_mask", "color_mask", "stencil_mask", "decode", "interpolate", "alternates", "s_mask", "s_mask_in_data", "struct_parent", "matte", "metadata", "associated_files", "filter", "decode_parms"];
fn arm_image_x_object(w: &mut ImageXObject<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = s.i32(); w.width(x0); out.push((b"Width".to_vec(), V::Int(x0))); }
        1 => { let x0 = s.i32(); w.height(x0); out.push((b"Height".to_vec(), V::Int(x0))); }
        2 => {  let e = { let u = w.color_space(); special::sub_color_space(u, s, d) }; out.push((b"ColorSpace".to_vec(), e)); }
        3 => { let x0 = s.string(); w.color_space_name(Name(&x0)); out.push((b"ColorSpace".to_vec(), V::Name(x0.clone()))); }
        4 => { let x0 = s.i32(); w.bits_per_component(x0); out.push((b"BitsPerComponent".to_vec(), V::Int(x0))); }
        5 => { let b0 = s.string(); let (x0, e0) = en_rendering_intent(s, &b0); w.intent(x0); out.push((b"Intent".to_vec(), e0.clone())); }
        6 => { let x0 = s.next() % 2 == 1; w.image_mask(x0); out.push((b"ImageMask".to_vec(), V::Bool(x0))); }
        7 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.i32()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Int(*r)).collect(); w.color_mask(r0.iter().map(|r| *r)); out.push((b"Mask".to_vec(), V::Arr([e0].concat()))); }
        8 => { let x0 = s.reference(); w.stencil_mask(Ref::new(x0)); out.push((b"Mask".to_vec(), V::Ref(x0))); }
        9 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.f32()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.decode(r0.iter().map(|r| *r)); out.push((b"Decode".to_vec(), V::Arr([e0].concat()))); }
        10 => { let x0 = s.next() % 2 == 1; w.interpolate(x0); out.push((b"Interpolate".to_vec(), V::Bool(x0))); }
        11 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.reference()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Ref(*r)).collect(); w.alternates(r0.iter().map(|r| Ref::new(*r))); out.push((b"Alternates".to_vec(), V::Arr([e0].concat()))); }
        12 => { let x0 = s.reference(); w.s_mask(Ref::new(x0)); out.push((b"SMask".to_vec(), V::Ref(x0))); }
        13 => { let b0 = s.string(); let (x0, e0) = en_s_mask_in_data(s, &b0); w.s_mask_in_data(x0); out.push((b"SMaskInData".to_vec(), e0.clone())); }
        14 => { let x0 = s.i32(); w.struct_parent(x0); out.push((b"StructParent".to_vec(), V::Int(x0))); }
        15 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.f32()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.matte(r0.iter().map(|r| *r)); out.push((b"Matte".to_vec(), V::Arr([e0].concat()))); }
        16 => { let x0 = s.reference(); w.metadata(Ref::new(x0)); out.push((b"Metadata".to_vec(), V::Ref(x0))); }
        17 => {  let e = { let u = w.associated_files(); special::typed_array(u, s, d, |u, s, d| { let u = u.push(); sub_file_spec(u, s, d) }) }; out.push((b"AF".to_vec(), e)); }
        18 => { let b0 = s.string(); let (x0, e0) = en_filter(s, &b0); w.filter(x0); out.push((b"Filter".to_vec(), e0.clone())); }
        19 => {  let e = { let u = w.decode_parms(); sub_decode_parms(u, s, d) }; out.push((b"DecodeParms".to_vec(), e)); }
        _ => {}
    }
}
pub fn fill_image_x_object(w: &mut ImageXObject<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_IMAGE_X_OBJECT > 0 { arm_image_x_object(w, k % N_SET_IMAGE_X_OBJECT, s, d - 1, out); }
    }
}
pub fn init_image_x_object() -> Entries { vec![(b"Type".to_vec(), V::Name(b"XObject".to_vec())), (b"Subtype".to_vec(), V::Name(b"Image".to_vec()))] }
pub fn sub_image_x_object(mut w: ImageXObject<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_image_x_object();
    fill_image_x_object(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_FORM_X_OBJECT: usize = 12;
pub const NAMES_FORM_X_OBJECT: &[&str] = &["bbox", "matrix", "resources", "group", "struct_parent", "struct_parents", "reference", "metadata", "last_modified", "associated_files", "filter", "decode_parms"];
fn arm_form_x_object(w: &mut FormXObject<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => { let x0 = [s.f32(), s.f32(), s.f32(), s.f32()]; w.bbox(Rect::new(x0[0], x0[1], x0[2], x0[3])); out.push((b"BBox".to_vec(), V::Rect(x0))); }
        1 => { let r0: Vec<_> = s.floats(6); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.matrix(<[_; 6]>::try_from(r0.iter().map(|r| *r).collect::<Vec<_>>()).ok().unwrap()); out.push((b"Matrix".to_vec(), V::Arr([e0].concat()))); }
        2 => {  let e = { let u = w.resources(); sub_resources(u, s, d) }; out.push((b"Resources".to_vec(), e)); }
        3 => {  let e = { let u = w.group(); sub_group(u, s, d) }; out.push((b"Group".to_vec(), e)); }
        4 => { let x0 = s.i32(); w.struct_parent(x0); out.push((b"StructParent".to_vec(), V::Int(x0))); }
        5 => { let x0 = s.i32(); w.struct_parents(x0); out.push((b"StructParents".to_vec(), V::Int(x0))); }
        6 => {  let e = { let u = w.reference(); sub_reference(u, s, d) }; out.push((b"Ref".to_vec(), e)); }
        7 => { let x0 = s.reference(); w.metadata(Ref::new(x0)); out.push((b"Metadata".to_vec(), V::Ref(x0))); }
        8 => { let (x0, e0) = date(s); w.last_modified(x0); out.push((b"LastModified".to_vec(), e0)); }
        9 => {  let e = { let u = w.associated_files(); special::typed_array(u, s, d, |u, s, d| { let u = u.push(); sub_file_spec(u, s, d) }) }; out.push((b"AF".to_vec(), e)); }
        10 => { let b0 = s.string(); let (x0, e0) = en_filter(s, &b0); w.filter(x0); out.push((b"Filter".to_vec(), e0.clone())); }
        11 => {  let e = { let u = w.decode_parms(); sub_decode_parms(u, s, d) }; out.push((b"DecodeParms".to_vec(), e)); }
        _ => {}
    }
}
pub fn fill_form_x_object(w: &mut FormXObject<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_FORM_X_OBJECT > 0 { arm_form_x_object(w, k % N_SET_FORM_X_OBJECT, s, d - 1, out); }
    }
}
pub fn init_form_x_object() -> Entries { vec![(b"Type".to_vec(), V::Name(b"XObject".to_vec())), (b"Subtype".to_vec(), V::Name(b"Form".to_vec()))] }
pub fn sub_form_x_object(mut w: FormXObject<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_form_x_object();
    fill_form_x_object(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_GROUP: usize = 4;
pub const NAMES_GROUP: &[&str] = &["transparency", "color_space", "isolated", "knockout"];
fn arm_group(w: &mut Group<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => {  w.transparency(); out.push((b"S".to_vec(), V::Name(b"Transparency".to_vec()))); }
        1 => {  let e = { let u = w.color_space(); special::sub_color_space(u, s, d) }; out.push((b"CS".to_vec(), e)); }
        2 => { let x0 = s.next() % 2 == 1; w.isolated(x0); out.push((b"I".to_vec(), V::Bool(x0))); }
        3 => { let x0 = s.next() % 2 == 1; w.knockout(x0); out.push((b"K".to_vec(), V::Bool(x0))); }
        _ => {}
    }
}
pub fn fill_group(w: &mut Group<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_GROUP > 0 { arm_group(w, k % N_SET_GROUP, s, d - 1, out); }
    }
}
pub fn init_group() -> Entries { vec![(b"Type".to_vec(), V::Name(b"Group".to_vec()))] }
pub fn sub_group(mut w: Group<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_group();
    fill_group(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_REFERENCE: usize = 4;
pub const NAMES_REFERENCE: &[&str] = &["file_spec", "page_number", "page_label", "id"];
fn arm_reference(w: &mut Reference<'_>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => {  let e = { let u = w.file_spec(); sub_file_spec(u, s, d) }; out.push((b"F".to_vec(), e)); }
        1 => { let x0 = s.i32(); w.page_number(x0); out.push((b"Page".to_vec(), V::Int(x0))); }
        2 => { let x0 = text(s); w.page_label(TextStr(&x0)); out.push((b"Page".to_vec(), V::Text(x0.clone()))); }
        3 => { let r0: Vec<_> = (0..2).map(|_| s.string()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Str(r.clone())).collect(); w.id(<[_; 2]>::try_from(r0.iter().map(|r| Str(r)).collect::<Vec<_>>()).ok().unwrap()); out.push((b"ID".to_vec(), V::Arr([e0].concat()))); }
        _ => {}
    }
}
pub fn fill_reference(w: &mut Reference<'_>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_REFERENCE > 0 { arm_reference(w, k % N_SET_REFERENCE, s, d - 1, out); }
    }
}
pub fn init_reference() -> Entries { vec![] }
pub fn sub_reference(mut w: Reference<'_>, s: &mut Src, d: usize) -> V {
    let mut out = init_reference();
    fill_reference(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_NAME_TREE: usize = 3;
pub const NAMES_NAME_TREE: &[&str] = &["kids", "names", "limits"];
fn arm_name_tree(w: &mut NameTree<'_, Ref>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => {  let e = { let u = w.kids(); special::typed_array(u, s, d, |u, s, d| { let x = s.reference(); u.item(Ref::new(x)); let _ = d; V::Ref(x) }) }; out.push((b"Kids".to_vec(), e)); }
        1 => {  let e = { let u = w.names(); sub_name_tree_entries(u, s, d) }; out.push((b"Names".to_vec(), e)); }
        2 => { let x0 = s.string(); let x1 = s.string(); w.limits(Name(&x0), Name(&x1)); out.push((b"Limits".to_vec(), V::Arr([vec![V::Str(x0.clone())], vec![V::Str(x1.clone())]].concat()))); }
        _ => {}
    }
}
pub fn fill_name_tree(w: &mut NameTree<'_, Ref>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_NAME_TREE > 0 { arm_name_tree(w, k % N_SET_NAME_TREE, s, d - 1, out); }
    }
}
pub fn init_name_tree() -> Entries { vec![] }
pub fn sub_name_tree(mut w: NameTree<'_, Ref>, s: &mut Src, d: usize) -> V {
    let mut out = init_name_tree();
    fill_name_tree(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_NUMBER_TREE: usize = 3;
pub const NAMES_NUMBER_TREE: &[&str] = &["kids", "nums", "limits"];
fn arm_number_tree(w: &mut NumberTree<'_, Ref>, k: usize, s: &mut Src, d: usize, out: &mut Entries) {
    match k {
        0 => {  let e = { let u = w.kids(); special::typed_array(u, s, d, |u, s, d| { let x = s.reference(); u.item(Ref::new(x)); let _ = d; V::Ref(x) }) }; out.push((b"Kids".to_vec(), e)); }
        1 => {  let e = { let u = w.nums(); sub_number_tree_entries(u, s, d) }; out.push((b"Nums".to_vec(), e)); }
        2 => { let x0 = s.i32(); let x1 = s.i32(); w.limits(x0, x1); out.push((b"Limits".to_vec(), V::Arr([vec![V::Int(x0)], vec![V::Int(x1)]].concat()))); }
        _ => {}
    }
}
pub fn fill_number_tree(w: &mut NumberTree<'_, Ref>, s: &mut Src, d: usize, out: &mut Entries) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_NUMBER_TREE > 0 { arm_number_tree(w, k % N_SET_NUMBER_TREE, s, d - 1, out); }
    }
}
pub fn init_number_tree() -> Entries { vec![] }
pub fn sub_number_tree(mut w: NumberTree<'_, Ref>, s: &mut Src, d: usize) -> V {
    let mut out = init_number_tree();
    fill_number_tree(&mut w, s, d, &mut out);
    V::Dict(out)
}
pub const N_SET_NAME_TREE_ENTRIES: usize = 1;
pub const NAMES_NAME_TREE_ENTRIES: &[&str] = &["insert"];
fn arm_name_tree_entries(w: &mut NameTreeEntries<'_, Ref>, k: usize, s: &mut Src, d: usize, out: &mut Vec<V>) {
    match k {
        0 => { let x0 = s.string(); let x1 = s.reference(); w.insert(Str(&x0), Ref::new(x1)); out.extend([vec![V::Str(x0.clone())], vec![V::Ref(x1)]].concat()); }
        _ => {}
    }
}
pub fn fill_name_tree_entries(w: &mut NameTreeEntries<'_, Ref>, s: &mut Src, d: usize, out: &mut Vec<V>) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_NAME_TREE_ENTRIES > 0 { arm_name_tree_entries(w, k % N_SET_NAME_TREE_ENTRIES, s, d - 1, out); }
    }
}
pub fn init_name_tree_entries() -> Vec<V> { vec![] }
pub fn sub_name_tree_entries(mut w: NameTreeEntries<'_, Ref>, s: &mut Src, d: usize) -> V {
    let mut out = init_name_tree_entries();
    fill_name_tree_entries(&mut w, s, d, &mut out);
    V::Arr(out)
}
pub const N_SET_NUMBER_TREE_ENTRIES: usize = 1;
pub const NAMES_NUMBER_TREE_ENTRIES: &[&str] = &["insert"];
fn arm_number_tree_entries(w: &mut NumberTreeEntries<'_, Ref>, k: usize, s: &mut Src, d: usize, out: &mut Vec<V>) {
    match k {
        0 => { let x0 = s.i32(); let x1 = s.reference(); w.insert(x0, Ref::new(x1)); out.extend([vec![V::Int(x0)], vec![V::Ref(x1)]].concat()); }
        _ => {}
    }
}
pub fn fill_number_tree_entries(w: &mut NumberTreeEntries<'_, Ref>, s: &mut Src, d: usize, out: &mut Vec<V>) {
    if d == 0 { return; }
    let n = s.next() % 6;
    for _ in 0..n {
        let k = s.next() as usize;
        if N_SET_NUMBER_TREE_ENTRIES > 0 { arm_number_tree_entries(w, k % N_SET_NUMBER_TREE_ENTRIES, s, d - 1, out); }
    }
}
pub fn init_number_tree_entries() -> Vec<V> { vec![] }
pub fn sub_number_tree_entries(mut w: NumberTreeEntries<'_, Ref>, s: &mut Src, d: usize) -> V {
    let mut out = init_number_tree_entries();
    fill_number_tree_entries(&mut w, s, d, &mut out);
    V::Arr(out)
}
pub struct Root {
    pub name: &'static str,
    pub names: &'static [&'static str],
    pub stream: bool,
    pub run: fn(&mut Chunk, &[u8], &mut Src, usize) -> V,
}
pub static ROOTS: &[Root] = &[
    Root { name: "Action", names: NAMES_ACTION, stream: false, run: |c, _, s, d| sub_action(c.indirect(Ref::new(7)).start::<Action<'_>>(), s, d) },
    Root { name: "Fields", names: NAMES_FIELDS, stream: false, run: |c, _, s, d| sub_fields(c.indirect(Ref::new(7)).start::<Fields<'_>>(), s, d) },
    Root { name: "AdditionalActions", names: NAMES_ADDITIONAL_ACTIONS, stream: false, run: |c, _, s, d| sub_additional_actions(c.indirect(Ref::new(7)).start::<AdditionalActions<'_>>(), s, d) },
    Root { name: "Annotation", names: NAMES_ANNOTATION, stream: false, run: |c, _, s, d| sub_annotation(c.indirect(Ref::new(7)).start::<Annotation<'_>>(), s, d) },
    Root { name: "AppearanceCharacteristics", names: NAMES_APPEARANCE_CHARACTERISTICS, stream: false, run: |c, _, s, d| sub_appearance_characteristics(c.indirect(Ref::new(7)).start::<AppearanceCharacteristics<'_>>(), s, d) },
    Root { name: "IconFit", names: NAMES_ICON_FIT, stream: false, run: |c, _, s, d| sub_icon_fit(c.indirect(Ref::new(7)).start::<IconFit<'_>>(), s, d) },
    Root { name: "Appearance", names: NAMES_APPEARANCE, stream: false, run: |c, _, s, d| sub_appearance(c.indirect(Ref::new(7)).start::<Appearance<'_>>(), s, d) },
    Root { name: "BorderStyle", names: NAMES_BORDER_STYLE, stream: false, run: |c, _, s, d| sub_border_style(c.indirect(Ref::new(7)).start::<BorderStyle<'_>>(), s, d) },
    Root { name: "UserProperty", names: NAMES_USER_PROPERTY, stream: false, run: |c, _, s, d| sub_user_property(c.indirect(Ref::new(7)).start::<UserProperty<'_>>(), s, d) },
    Root { name: "LayoutAttributes", names: NAMES_LAYOUT_ATTRIBUTES, stream: false, run: |c, _, s, d| sub_layout_attributes(c.indirect(Ref::new(7)).start::<LayoutAttributes<'_>>(), s, d) },
    Root { name: "ListAttributes", names: NAMES_LIST_ATTRIBUTES, stream: false, run: |c, _, s, d| sub_list_attributes(c.indirect(Ref::new(7)).start::<ListAttributes<'_>>(), s, d) },
    Root { name: "FieldAttributes", names: NAMES_FIELD_ATTRIBUTES, stream: false, run: |c, _, s, d| sub_field_attributes(c.indirect(Ref::new(7)).start::<FieldAttributes<'_>>(), s, d) },
    Root { name: "TableAttributes", names: NAMES_TABLE_ATTRIBUTES, stream: false, run: |c, _, s, d| sub_table_attributes(c.indirect(Ref::new(7)).start::<TableAttributes<'_>>(), s, d) },
    Root { name: "ArtifactAttributes", names: NAMES_ARTIFACT_ATTRIBUTES, stream: false, run: |c, _, s, d| sub_artifact_attributes(c.indirect(Ref::new(7)).start::<ArtifactAttributes<'_>>(), s, d) },
    Root { name: "FENoteAttributes", names: NAMES_F_E_NOTE_ATTRIBUTES, stream: false, run: |c, _, s, d| sub_f_e_note_attributes(c.indirect(Ref::new(7)).start::<FENoteAttributes<'_>>(), s, d) },
    Root { name: "IccProfile", names: NAMES_ICC_PROFILE, stream: true, run: |c, data, s, d| { let mut out = init_icc_profile(); let mut w = c.icc_profile(Ref::new(7), data); fill_icc_profile(&mut w, s, d, &mut out); drop(w); V::Dict(out) } },
    Root { name: "DeviceNAttrs", names: NAMES_DEVICE_N_ATTRS, stream: false, run: |c, _, s, d| sub_device_n_attrs(c.indirect(Ref::new(7)).start::<DeviceNAttrs<'_>>(), s, d) },
    Root { name: "DeviceNProcess", names: NAMES_DEVICE_N_PROCESS, stream: false, run: |c, _, s, d| sub_device_n_process(c.indirect(Ref::new(7)).start::<DeviceNProcess<'_>>(), s, d) },
    Root { name: "DeviceNMixingHints", names: NAMES_DEVICE_N_MIXING_HINTS, stream: false, run: |c, _, s, d| sub_device_n_mixing_hints(c.indirect(Ref::new(7)).start::<DeviceNMixingHints<'_>>(), s, d) },
    Root { name: "TilingPattern", names: NAMES_TILING_PATTERN, stream: true, run: |c, data, s, d| { let mut out = init_tiling_pattern(); let mut w = c.tiling_pattern(Ref::new(7), data); fill_tiling_pattern(&mut w, s, d, &mut out); drop(w); V::Dict(out) } },
    Root { name: "ShadingPattern", names: NAMES_SHADING_PATTERN, stream: false, run: |c, _, s, d| sub_shading_pattern(c.indirect(Ref::new(7)).start::<ShadingPattern<'_>>(), s, d) },
    Root { name: "FunctionShading", names: NAMES_FUNCTION_SHADING, stream: false, run: |c, _, s, d| sub_function_shading(c.indirect(Ref::new(7)).start::<FunctionShading<'_>>(), s, d) },
    Root { name: "StreamShading", names: NAMES_STREAM_SHADING, stream: true, run: |c, data, s, d| { let mut out = init_stream_shading(); let mut w = c.stream_shading(Ref::new(7), data); fill_stream_shading(&mut w, s, d, &mut out); drop(w); V::Dict(out) } },
    Root { name: "SeparationInfo", names: NAMES_SEPARATION_INFO, stream: false, run: |c, _, s, d| sub_separation_info(c.indirect(Ref::new(7)).start::<SeparationInfo<'_>>(), s, d) },
    Root { name: "OutputIntent", names: NAMES_OUTPUT_INTENT, stream: false, run: |c, _, s, d| sub_output_intent(c.indirect(Ref::new(7)).start::<OutputIntent<'_>>(), s, d) },
    Root { name: "Artifact", names: NAMES_ARTIFACT, stream: false, run: |c, _, s, d| sub_artifact(c.indirect(Ref::new(7)).start::<Artifact<'_>>(), s, d) },
    Root { name: "Resources", names: NAMES_RESOURCES, stream: false, run: |c, _, s, d| sub_resources(c.indirect(Ref::new(7)).start::<Resources<'_>>(), s, d) },
    Root { name: "ExtGraphicsState", names: NAMES_EXT_GRAPHICS_STATE, stream: false, run: |c, _, s, d| sub_ext_graphics_state(c.indirect(Ref::new(7)).start::<ExtGraphicsState<'_>>(), s, d) },
    Root { name: "SoftMask", names: NAMES_SOFT_MASK, stream: false, run: |c, _, s, d| sub_soft_mask(c.indirect(Ref::new(7)).start::<SoftMask<'_>>(), s, d) },
    Root { name: "FileSpec", names: NAMES_FILE_SPEC, stream: false, run: |c, _, s, d| sub_file_spec(c.indirect(Ref::new(7)).start::<FileSpec<'_>>(), s, d) },
    Root { name: "EmbeddedFile", names: NAMES_EMBEDDED_FILE, stream: true, run: |c, data, s, d| { let mut out = init_embedded_file(); let mut w = c.embedded_file(Ref::new(7), data); fill_embedded_file(&mut w, s, d, &mut out); drop(w); V::Dict(out) } },
    Root { name: "EmbeddingParams", names: NAMES_EMBEDDING_PARAMS, stream: false, run: |c, _, s, d| sub_embedding_params(c.indirect(Ref::new(7)).start::<EmbeddingParams<'_>>(), s, d) },
    Root { name: "Type1Font", names: NAMES_TYPE1_FONT, stream: false, run: |c, _, s, d| sub_type1_font(c.indirect(Ref::new(7)).start::<Type1Font<'_>>(), s, d) },
    Root { name: "Type3Font", names: NAMES_TYPE3_FONT, stream: false, run: |c, _, s, d| sub_type3_font(c.indirect(Ref::new(7)).start::<Type3Font<'_>>(), s, d) },
    Root { name: "Encoding", names: NAMES_ENCODING, stream: false, run: |c, _, s, d| sub_encoding(c.indirect(Ref::new(7)).start::<Encoding<'_>>(), s, d) },
    Root { name: "Differences", names: NAMES_DIFFERENCES, stream: false, run: |c, _, s, d| sub_differences(c.indirect(Ref::new(7)).start::<Differences<'_>>(), s, d) },
    Root { name: "Type0Font", names: NAMES_TYPE0_FONT, stream: false, run: |c, _, s, d| sub_type0_font(c.indirect(Ref::new(7)).start::<Type0Font<'_>>(), s, d) },
    Root { name: "CidFont", names: NAMES_CID_FONT, stream: false, run: |c, _, s, d| sub_cid_font(c.indirect(Ref::new(7)).start::<CidFont<'_>>(), s, d) },
    Root { name: "Widths", names: NAMES_WIDTHS, stream: false, run: |c, _, s, d| sub_widths(c.indirect(Ref::new(7)).start::<Widths<'_>>(), s, d) },
    Root { name: "FontDescriptor", names: NAMES_FONT_DESCRIPTOR, stream: false, run: |c, _, s, d| sub_font_descriptor(c.indirect(Ref::new(7)).start::<FontDescriptor<'_>>(), s, d) },
    Root { name: "FontDescriptorOverride", names: NAMES_FONT_DESCRIPTOR_OVERRIDE, stream: false, run: |c, _, s, d| sub_font_descriptor_override(c.indirect(Ref::new(7)).start::<FontDescriptorOverride<'_>>(), s, d) },
    Root { name: "Cmap", names: NAMES_CMAP, stream: true, run: |c, data, s, d| { let mut out = init_cmap(); let mut w = c.cmap(Ref::new(7), data); fill_cmap(&mut w, s, d, &mut out); drop(w); V::Dict(out) } },
    Root { name: "Form", names: NAMES_FORM, stream: false, run: |c, _, s, d| sub_form(c.indirect(Ref::new(7)).start::<Form<'_>>(), s, d) },
    Root { name: "ChoiceOptions", names: NAMES_CHOICE_OPTIONS, stream: false, run: |c, _, s, d| sub_choice_options(c.indirect(Ref::new(7)).start::<ChoiceOptions<'_>>(), s, d) },
    Root { name: "SignatureFieldLock", names: NAMES_SIGNATURE_FIELD_LOCK, stream: false, run: |c, _, s, d| sub_signature_field_lock(c.indirect(Ref::new(7)).start::<SignatureFieldLock<'_>>(), s, d) },
    Root { name: "SignatureSeedValue", names: NAMES_SIGNATURE_SEED_VALUE, stream: false, run: |c, _, s, d| sub_signature_seed_value(c.indirect(Ref::new(7)).start::<SignatureSeedValue<'_>>(), s, d) },
    Root { name: "SignatureModificationDetectionPrevention", names: NAMES_SIGNATURE_MODIFICATION_DETECTION_PREVENTION, stream: false, run: |c, _, s, d| sub_signature_modification_detection_prevention(c.indirect(Ref::new(7)).start::<SignatureModificationDetectionPrevention<'_>>(), s, d) },
    Root { name: "SignatureTimeStamp", names: NAMES_SIGNATURE_TIME_STAMP, stream: false, run: |c, _, s, d| sub_signature_time_stamp(c.indirect(Ref::new(7)).start::<SignatureTimeStamp<'_>>(), s, d) },
    Root { name: "CertificateSeedValue", names: NAMES_CERTIFICATE_SEED_VALUE, stream: false, run: |c, _, s, d| sub_certificate_seed_value(c.indirect(Ref::new(7)).start::<CertificateSeedValue<'_>>(), s, d) },
    Root { name: "SampledFunction", names: NAMES_SAMPLED_FUNCTION, stream: true, run: |c, data, s, d| { let mut out = init_sampled_function(); let mut w = c.sampled_function(Ref::new(7), data); fill_sampled_function(&mut w, s, d, &mut out); drop(w); V::Dict(out) } },
    Root { name: "ExponentialFunction", names: NAMES_EXPONENTIAL_FUNCTION, stream: false, run: |c, _, s, d| sub_exponential_function(c.indirect(Ref::new(7)).start::<ExponentialFunction<'_>>(), s, d) },
    Root { name: "StitchingFunction", names: NAMES_STITCHING_FUNCTION, stream: false, run: |c, _, s, d| sub_stitching_function(c.indirect(Ref::new(7)).start::<StitchingFunction<'_>>(), s, d) },
    Root { name: "PostScriptFunction", names: NAMES_POST_SCRIPT_FUNCTION, stream: true, run: |c, data, s, d| { let mut out = init_post_script_function(); let mut w = c.post_script_function(Ref::new(7), data); fill_post_script_function(&mut w, s, d, &mut out); drop(w); V::Dict(out) } },
    Root { name: "DecodeParms", names: NAMES_DECODE_PARMS, stream: false, run: |c, _, s, d| sub_decode_parms(c.indirect(Ref::new(7)).start::<DecodeParms<'_>>(), s, d) },
    Root { name: "Rendition", names: NAMES_RENDITION, stream: false, run: |c, _, s, d| sub_rendition(c.indirect(Ref::new(7)).start::<Rendition<'_>>(), s, d) },
    Root { name: "MediaClip", names: NAMES_MEDIA_CLIP, stream: false, run: |c, _, s, d| sub_media_clip(c.indirect(Ref::new(7)).start::<MediaClip<'_>>(), s, d) },
    Root { name: "MediaPlayParams", names: NAMES_MEDIA_PLAY_PARAMS, stream: false, run: |c, _, s, d| sub_media_play_params(c.indirect(Ref::new(7)).start::<MediaPlayParams<'_>>(), s, d) },
    Root { name: "MediaPermissions", names: NAMES_MEDIA_PERMISSIONS, stream: false, run: |c, _, s, d| sub_media_permissions(c.indirect(Ref::new(7)).start::<MediaPermissions<'_>>(), s, d) },
    Root { name: "Catalog", names: NAMES_CATALOG, stream: false, run: |c, _, s, d| sub_catalog(c.indirect(Ref::new(7)).start::<Catalog<'_>>(), s, d) },
    Root { name: "DeveloperExtension", names: NAMES_DEVELOPER_EXTENSION, stream: false, run: |c, _, s, d| sub_developer_extension(c.indirect(Ref::new(7)).start::<DeveloperExtension<'_>>(), s, d) },
    Root { name: "ViewerPreferences", names: NAMES_VIEWER_PREFERENCES, stream: false, run: |c, _, s, d| sub_viewer_preferences(c.indirect(Ref::new(7)).start::<ViewerPreferences<'_>>(), s, d) },
    Root { name: "StructTreeRoot", names: NAMES_STRUCT_TREE_ROOT, stream: false, run: |c, _, s, d| sub_struct_tree_root(c.indirect(Ref::new(7)).start::<StructTreeRoot<'_>>(), s, d) },
    Root { name: "StructElement", names: NAMES_STRUCT_ELEMENT, stream: false, run: |c, _, s, d| sub_struct_element(c.indirect(Ref::new(7)).start::<StructElement<'_>>(), s, d) },
    Root { name: "StructChildren", names: NAMES_STRUCT_CHILDREN, stream: false, run: |c, _, s, d| sub_struct_children(c.indirect(Ref::new(7)).start::<StructChildren<'_>>(), s, d) },
    Root { name: "MarkedRef", names: NAMES_MARKED_REF, stream: false, run: |c, _, s, d| sub_marked_ref(c.indirect(Ref::new(7)).start::<MarkedRef<'_>>(), s, d) },
    Root { name: "ObjectRef", names: NAMES_OBJECT_REF, stream: false, run: |c, _, s, d| sub_object_ref(c.indirect(Ref::new(7)).start::<ObjectRef<'_>>(), s, d) },
    Root { name: "RoleMap", names: NAMES_ROLE_MAP, stream: false, run: |c, _, s, d| sub_role_map(c.indirect(Ref::new(7)).start::<RoleMap<'_>>(), s, d) },
    Root { name: "ClassMap", names: NAMES_CLASS_MAP, stream: false, run: |c, _, s, d| sub_class_map(c.indirect(Ref::new(7)).start::<ClassMap<'_>>(), s, d) },
    Root { name: "NamespaceRoleMap", names: NAMES_NAMESPACE_ROLE_MAP, stream: false, run: |c, _, s, d| sub_namespace_role_map(c.indirect(Ref::new(7)).start::<NamespaceRoleMap<'_>>(), s, d) },
    Root { name: "MarkInfo", names: NAMES_MARK_INFO, stream: false, run: |c, _, s, d| sub_mark_info(c.indirect(Ref::new(7)).start::<MarkInfo<'_>>(), s, d) },
    Root { name: "PageLabel", names: NAMES_PAGE_LABEL, stream: false, run: |c, _, s, d| sub_page_label(c.indirect(Ref::new(7)).start::<PageLabel<'_>>(), s, d) },
    Root { name: "DocumentInfo", names: NAMES_DOCUMENT_INFO, stream: false, run: |c, _, s, d| sub_document_info(c.indirect(Ref::new(7)).start::<DocumentInfo<'_>>(), s, d) },
    Root { name: "Pages", names: NAMES_PAGES, stream: false, run: |c, _, s, d| sub_pages(c.indirect(Ref::new(7)).start::<Pages<'_>>(), s, d) },
    Root { name: "Page", names: NAMES_PAGE, stream: false, run: |c, _, s, d| sub_page(c.indirect(Ref::new(7)).start::<Page<'_>>(), s, d) },
    Root { name: "Outline", names: NAMES_OUTLINE, stream: false, run: |c, _, s, d| sub_outline(c.indirect(Ref::new(7)).start::<Outline<'_>>(), s, d) },
    Root { name: "OutlineItem", names: NAMES_OUTLINE_ITEM, stream: false, run: |c, _, s, d| sub_outline_item(c.indirect(Ref::new(7)).start::<OutlineItem<'_>>(), s, d) },
    Root { name: "Names", names: NAMES_NAMES, stream: false, run: |c, _, s, d| sub_names(c.indirect(Ref::new(7)).start::<Names<'_>>(), s, d) },
    Root { name: "Metadata", names: NAMES_METADATA, stream: true, run: |c, data, s, d| { let mut out = init_metadata(); let mut w = c.metadata(Ref::new(7), data); fill_metadata(&mut w, s, d, &mut out); drop(w); V::Dict(out) } },
    Root { name: "Transition", names: NAMES_TRANSITION, stream: false, run: |c, _, s, d| sub_transition(c.indirect(Ref::new(7)).start::<Transition<'_>>(), s, d) },
    Root { name: "ImageXObject", names: NAMES_IMAGE_X_OBJECT, stream: true, run: |c, data, s, d| { let mut out = init_image_x_object(); let mut w = c.image_xobject(Ref::new(7), data); fill_image_x_object(&mut w, s, d, &mut out); drop(w); V::Dict(out) } },
    Root { name: "FormXObject", names: NAMES_FORM_X_OBJECT, stream: true, run: |c, data, s, d| { let mut out = init_form_x_object(); let mut w = c.form_xobject(Ref::new(7), data); fill_form_x_object(&mut w, s, d, &mut out); drop(w); V::Dict(out) } },
    Root { name: "Group", names: NAMES_GROUP, stream: false, run: |c, _, s, d| sub_group(c.indirect(Ref::new(7)).start::<Group<'_>>(), s, d) },
    Root { name: "Reference", names: NAMES_REFERENCE, stream: false, run: |c, _, s, d| sub_reference(c.indirect(Ref::new(7)).start::<Reference<'_>>(), s, d) },
    Root { name: "NameTree", names: NAMES_NAME_TREE, stream: false, run: |c, _, s, d| sub_name_tree(c.indirect(Ref::new(7)).start::<NameTree<'_, Ref>>(), s, d) },
    Root { name: "NumberTree", names: NAMES_NUMBER_TREE, stream: false, run: |c, _, s, d| sub_number_tree(c.indirect(Ref::new(7)).start::<NumberTree<'_, Ref>>(), s, d) },
    Root { name: "NameTreeEntries", names: NAMES_NAME_TREE_ENTRIES, stream: false, run: |c, _, s, d| sub_name_tree_entries(c.indirect(Ref::new(7)).start::<NameTreeEntries<'_, Ref>>(), s, d) },
    Root { name: "NumberTreeEntries", names: NAMES_NUMBER_TREE_ENTRIES, stream: false, run: |c, _, s, d| sub_number_tree_entries(c.indirect(Ref::new(7)).start::<NumberTreeEntries<'_, Ref>>(), s, d) },
    Root { name: "AppearanceEntry", names: &[], stream: false, run: |c, _, s, d| special::sub_appearance_entry(c.indirect(Ref::new(7)).start::<AppearanceEntry<'_>>(), s, d) },
    Root { name: "TrackSizes", names: &[], stream: false, run: |c, _, s, d| special::sub_track_sizes(c.indirect(Ref::new(7)).start::<TrackSizes<'_>>(), s, d) },
    Root { name: "ColorSpace", names: &[], stream: false, run: |c, _, s, d| special::sub_color_space(c.indirect(Ref::new(7)).start::<ColorSpace<'_>>(), s, d) },
    Root { name: "Destination", names: &[], stream: false, run: |c, _, s, d| special::sub_destination(c.indirect(Ref::new(7)).start::<Destination<'_>>(), s, d) },
    Root { name: "Attributes", names: &[], stream: false, run: |c, _, s, d| special::sub_attributes(c.indirect(Ref::new(7)).start::<Attributes<'_>>(), s, d) },
    Root { name: "PropertyList", names: &[], stream: false, run: |c, _, s, d| special::sub_property_list(c.indirect(Ref::new(7)).start::<PropertyList<'_>>(), s, d) },
    Root { name: "Field", names: &[], stream: false, run: |c, _, s, d| special::sub_field(c.indirect(Ref::new(7)).start::<Field<'_>>(), s, d) },
    Root { name: "Namespace", names: &[], stream: false, run: |c, _, s, d| special::sub_namespace(c.indirect(Ref::new(7)).start::<Namespace<'_>>(), s, d) },
];
/// (writer, method, number of values, a set of flags, a list, how many arguments come before).
pub static ENUM_ARMS: &[(&str, usize, u8, bool, bool, usize)] = &[
    ("Action", 0, N_ACTION_TYPE, false, false, 0),
    ("Action", 10, N_FORM_ACTION_FLAGS, true, false, 0),
    ("Action", 11, N_RENDITION_OPERATION, false, false, 0),
    ("Annotation", 0, N_ANNOTATION_TYPE, false, false, 0),
    ("Annotation", 6, N_ANNOTATION_FLAGS, true, false, 0),
    ("Annotation", 17, N_HIGHLIGHT_EFFECT, false, false, 0),
    ("Annotation", 23, N_ANNOTATION_ICON, false, false, 0),
    ("AppearanceCharacteristics", 16, N_TEXT_POSITION, false, false, 0),
    ("IconFit", 0, N_ICON_SCALE, false, false, 0),
    ("IconFit", 1, N_ICON_SCALE_TYPE, false, false, 0),
    ("BorderStyle", 1, N_BORDER_TYPE, false, false, 0),
    ("LayoutAttributes", 0, N_PLACEMENT, false, false, 0),
    ("LayoutAttributes", 1, N_WRITING_MODE, false, false, 0),
    ("LayoutAttributes", 9, N_TEXT_ALIGN, false, false, 0),
    ("LayoutAttributes", 13, N_BLOCK_ALIGN, false, false, 0),
    ("LayoutAttributes", 14, N_INLINE_ALIGN, false, false, 0),
    ("LayoutAttributes", 19, N_LAYOUT_TEXT_POSITION, false, false, 0),
    ("LayoutAttributes", 20, N_TEXT_DECORATION_TYPE, false, false, 0),
    ("LayoutAttributes", 23, N_RUBY_ALIGN, false, false, 0),
    ("LayoutAttributes", 24, N_RUBY_POSITION, false, false, 0),
    ("ListAttributes", 0, N_LIST_NUMBERING, false, false, 0),
    ("FieldAttributes", 0, N_FIELD_ROLE, false, false, 0),
    ("TableAttributes", 3, N_TABLE_HEADER_SCOPE, false, false, 0),
    ("ArtifactAttributes", 0, N_ARTIFACT_TYPE, false, false, 0),
    ("ArtifactAttributes", 2, N_ARTIFACT_SUBTYPE, false, false, 0),
    ("FENoteAttributes", 0, N_NOTE_TYPE, false, false, 0),
    ("IccProfile", 4, N_FILTER, false, false, 0),
    ("DeviceNAttrs", 0, N_DEVICE_N_SUBTYPE, false, false, 0),
    ("TilingPattern", 0, N_PAINT_TYPE, false, false, 0),
    ("TilingPattern", 1, N_TILING_TYPE, false, false, 0),
    ("TilingPattern", 5, N_FILTER, false, false, 0),
    ("FunctionShading", 0, N_FUNCTION_SHADING_TYPE, false, false, 0),
    ("StreamShading", 0, N_STREAM_SHADING_TYPE, false, false, 0),
    ("StreamShading", 11, N_FILTER, false, false, 0),
    ("OutputIntent", 0, N_OUTPUT_INTENT_SUBTYPE, false, false, 0),
    ("Artifact", 0, N_ARTIFACT_TYPE, false, false, 0),
    ("Artifact", 1, N_ARTIFACT_SUBTYPE, false, false, 0),
    ("Artifact", 3, N_ARTIFACT_ATTACHMENT, false, true, 0),
    ("Resources", 6, N_PROC_SET, false, true, 0),
    ("ExtGraphicsState", 1, N_LINE_CAP_STYLE, false, false, 0),
    ("ExtGraphicsState", 2, N_LINE_JOIN_STYLE, false, false, 0),
    ("ExtGraphicsState", 4, N_RENDERING_INTENT, false, false, 0),
    ("ExtGraphicsState", 7, N_OVERPRINT_MODE, false, false, 0),
    ("ExtGraphicsState", 19, N_BLEND_MODE, false, false, 0),
    ("SoftMask", 0, N_MASK_TYPE, false, false, 0),
    ("FileSpec", 5, N_ASSOCIATION_KIND, false, false, 0),
    ("EmbeddedFile", 2, N_FILTER, false, false, 0),
    ("CidFont", 0, N_CID_FONT_TYPE, false, false, 0),
    ("FontDescriptor", 2, N_FONT_STRETCH, false, false, 0),
    ("FontDescriptor", 4, N_FONT_FLAGS, true, false, 0),
    ("Cmap", 1, N_W_MODE, false, false, 0),
    ("Cmap", 4, N_FILTER, false, false, 0),
    ("Form", 1, N_SIG_FLAGS, true, false, 0),
    ("Form", 5, N_QUADDING, false, false, 0),
    ("Field", 0, N_FIELD_TYPE, false, false, 0),
    ("Field", 6, N_FIELD_FLAGS, true, false, 0),
    ("Field", 9, N_CHECK_BOX_STATE, false, false, 0),
    ("Field", 10, N_CHECK_BOX_STATE, false, false, 0),
    ("Field", 17, N_QUADDING, false, false, 0),
    ("SignatureFieldLock", 0, N_SIGNATURE_LOCK_ACTION, false, false, 0),
    ("SignatureFieldLock", 2, N_ACCESS_PERMISSIONS, false, false, 0),
    ("SignatureSeedValue", 0, N_SIGNATURE_SEED_VALUE_FLAGS, true, false, 0),
    ("SignatureSeedValue", 3, N_SIGNATURE_DIGEST_METHOD, false, true, 0),
    ("SignatureSeedValue", 4, N_SEED_VALUE_PARSER_VERSION, false, false, 0),
    ("SignatureSeedValue", 11, N_LOCKING_INTENT, false, false, 0),
    ("CertificateSeedValue", 0, N_CERTIFICATE_SEED_VALUE_FLAGS, true, false, 0),
    ("CertificateSeedValue", 10, N_CERTIFICATE_URL_TYPE, false, false, 0),
    ("SampledFunction", 2, N_INTERPOLATION_ORDER, false, false, 0),
    ("SampledFunction", 5, N_FILTER, false, false, 0),
    ("PostScriptFunction", 0, N_FILTER, false, false, 0),
    ("Rendition", 0, N_RENDITION_TYPE, false, false, 0),
    ("MediaClip", 0, N_MEDIA_CLIP_TYPE, false, false, 0),
    ("MediaPermissions", 0, N_TEMP_FILE_TYPE, false, false, 0),
    ("Catalog", 1, N_PAGE_LAYOUT, false, false, 0),
    ("Catalog", 3, N_PAGE_MODE, false, false, 0),
    ("ViewerPreferences", 5, N_DIRECTION, false, false, 0),
    ("StructElement", 0, N_STRUCT_ROLE, false, false, 0),
    ("StructElement", 20, N_PHONETIC_ALPHABET, false, false, 0),
    ("PageLabel", 0, N_NUMBERING_STYLE, false, false, 0),
    ("DocumentInfo", 8, N_TRAPPING_STATUS, false, false, 0),
    ("Page", 17, N_TAB_ORDER, false, false, 0),
    ("OutlineItem", 10, N_OUTLINE_ITEM_FLAGS, true, false, 0),
    ("Metadata", 0, N_FILTER, false, false, 0),
    ("Transition", 0, N_TRANSITION_STYLE, false, false, 0),
    ("ImageXObject", 5, N_RENDERING_INTENT, false, false, 0),
    ("ImageXObject", 13, N_S_MASK_IN_DATA, false, false, 0),
    ("ImageXObject", 18, N_FILTER, false, false, 0),
    ("FormXObject", 10, N_FILTER, false, false, 0),
];
pub const N_OPS: usize = 70;
pub const OPS: &[&str] = &["set_line_cap", "set_line_join", "set_miter_limit", "set_rendering_intent", "set_parameters", "transform", "move_to", "line_to", "cubic_to", "cubic_to_initial", "cubic_to_final", "close_path", "rect", "stroke", "close_and_stroke", "fill_nonzero", "fill_even_odd", "fill_nonzero_and_stroke", "fill_even_odd_and_stroke", "close_fill_nonzero_and_stroke", "close_fill_even_odd_and_stroke", "end_path", "clip_nonzero", "clip_even_odd", "begin_text", "end_text", "set_char_spacing", "set_word_spacing", "set_horizontal_scaling", "set_leading", "set_font", "set_text_rendering_mode", "set_rise", "next_line", "next_line_and_set_leading", "set_text_matrix", "next_line_using_leading", "show", "next_line_show", "next_line_show_and_set_word_and_char_spacing", "start_color_glyph", "start_shape_glyph", "set_stroke_color", "set_stroke_pattern", "set_fill_color", "set_fill_pattern", "set_stroke_gray", "set_fill_gray", "set_stroke_rgb", "set_fill_rgb", "set_stroke_cmyk", "set_fill_cmyk", "shading", "x_object", "marked_content_point", "begin_marked_content", "end_marked_content", "begin_compat", "end_compat", "set_line_width", "set_dash_pattern", "set_flatness", "save_state", "restore_state", "show_positioned", "set_stroke_color_space", "set_fill_color_space", "marked_content_point_with_properties", "begin_marked_content_with_properties", "op"];
pub type Ops = Vec<(Vec<V>, Vec<u8>)>;
pub fn arm_content(w: &mut Content, k: usize, s: &mut Src, out: &mut Ops) {
    match k {
        0 => { let b0 = s.string(); let (x0, e0) = en_line_cap_style(s, &b0); w.set_line_cap(x0); out.push(([vec![e0.clone()]].concat(), b"J".to_vec())); }
        1 => { let b0 = s.string(); let (x0, e0) = en_line_join_style(s, &b0); w.set_line_join(x0); out.push(([vec![e0.clone()]].concat(), b"j".to_vec())); }
        2 => { let x0 = s.f32(); w.set_miter_limit(x0); out.push(([vec![V::Real(x0)]].concat(), b"M".to_vec())); }
        3 => { let b0 = s.string(); let (x0, e0) = en_rendering_intent(s, &b0); w.set_rendering_intent(x0); out.push(([vec![e0.clone()]].concat(), b"ri".to_vec())); }
        4 => { let x0 = s.string(); w.set_parameters(Name(&x0)); out.push(([vec![V::Name(x0.clone())]].concat(), b"gs".to_vec())); }
        5 => { let r0: Vec<_> = s.floats(6); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.transform(<[_; 6]>::try_from(r0.iter().map(|r| *r).collect::<Vec<_>>()).ok().unwrap()); out.push(([e0].concat(), b"cm".to_vec())); }
        6 => { let x0 = s.f32(); let x1 = s.f32(); w.move_to(x0, x1); out.push(([vec![V::Real(x0)], vec![V::Real(x1)]].concat(), b"m".to_vec())); }
        7 => { let x0 = s.f32(); let x1 = s.f32(); w.line_to(x0, x1); out.push(([vec![V::Real(x0)], vec![V::Real(x1)]].concat(), b"l".to_vec())); }
        8 => { let x0 = s.f32(); let x1 = s.f32(); let x2 = s.f32(); let x3 = s.f32(); let x4 = s.f32(); let x5 = s.f32(); w.cubic_to(x0, x1, x2, x3, x4, x5); out.push(([vec![V::Real(x0)], vec![V::Real(x1)], vec![V::Real(x2)], vec![V::Real(x3)], vec![V::Real(x4)], vec![V::Real(x5)]].concat(), b"c".to_vec())); }
        9 => { let x0 = s.f32(); let x1 = s.f32(); let x2 = s.f32(); let x3 = s.f32(); w.cubic_to_initial(x0, x1, x2, x3); out.push(([vec![V::Real(x0)], vec![V::Real(x1)], vec![V::Real(x2)], vec![V::Real(x3)]].concat(), b"v".to_vec())); }
        10 => { let x0 = s.f32(); let x1 = s.f32(); let x2 = s.f32(); let x3 = s.f32(); w.cubic_to_final(x0, x1, x2, x3); out.push(([vec![V::Real(x0)], vec![V::Real(x1)], vec![V::Real(x2)], vec![V::Real(x3)]].concat(), b"y".to_vec())); }
        11 => {  w.close_path(); out.push((vec![], b"h".to_vec())); }
        12 => { let x0 = s.f32(); let x1 = s.f32(); let x2 = s.f32(); let x3 = s.f32(); w.rect(x0, x1, x2, x3); out.push(([vec![V::Real(x0)], vec![V::Real(x1)], vec![V::Real(x2)], vec![V::Real(x3)]].concat(), b"re".to_vec())); }
        13 => {  w.stroke(); out.push((vec![], b"S".to_vec())); }
        14 => {  w.close_and_stroke(); out.push((vec![], b"s".to_vec())); }
        15 => {  w.fill_nonzero(); out.push((vec![], b"f".to_vec())); }
        16 => {  w.fill_even_odd(); out.push((vec![], b"f*".to_vec())); }
        17 => {  w.fill_nonzero_and_stroke(); out.push((vec![], b"B".to_vec())); }
        18 => {  w.fill_even_odd_and_stroke(); out.push((vec![], b"B*".to_vec())); }
        19 => {  w.close_fill_nonzero_and_stroke(); out.push((vec![], b"b".to_vec())); }
        20 => {  w.close_fill_even_odd_and_stroke(); out.push((vec![], b"b*".to_vec())); }
        21 => {  w.end_path(); out.push((vec![], b"n".to_vec())); }
        22 => {  w.clip_nonzero(); out.push((vec![], b"W".to_vec())); }
        23 => {  w.clip_even_odd(); out.push((vec![], b"W*".to_vec())); }
        24 => {  w.begin_text(); out.push((vec![], b"BT".to_vec())); }
        25 => {  w.end_text(); out.push((vec![], b"ET".to_vec())); }
        26 => { let x0 = s.f32(); w.set_char_spacing(x0); out.push(([vec![V::Real(x0)]].concat(), b"Tc".to_vec())); }
        27 => { let x0 = s.f32(); w.set_word_spacing(x0); out.push(([vec![V::Real(x0)]].concat(), b"Tw".to_vec())); }
        28 => { let x0 = s.f32(); w.set_horizontal_scaling(x0); out.push(([vec![V::Real(x0)]].concat(), b"Tz".to_vec())); }
        29 => { let x0 = s.f32(); w.set_leading(x0); out.push(([vec![V::Real(x0)]].concat(), b"TL".to_vec())); }
        30 => { let x0 = s.string(); let x1 = s.f32(); w.set_font(Name(&x0), x1); out.push(([vec![V::Name(x0.clone())], vec![V::Real(x1)]].concat(), b"Tf".to_vec())); }
        31 => { let b0 = s.string(); let (x0, e0) = en_text_rendering_mode(s, &b0); w.set_text_rendering_mode(x0); out.push(([vec![e0.clone()]].concat(), b"Tr".to_vec())); }
        32 => { let x0 = s.f32(); w.set_rise(x0); out.push(([vec![V::Real(x0)]].concat(), b"Ts".to_vec())); }
        33 => { let x0 = s.f32(); let x1 = s.f32(); w.next_line(x0, x1); out.push(([vec![V::Real(x0)], vec![V::Real(x1)]].concat(), b"Td".to_vec())); }
        34 => { let x0 = s.f32(); let x1 = s.f32(); w.next_line_and_set_leading(x0, x1); out.push(([vec![V::Real(x0)], vec![V::Real(x1)]].concat(), b"TD".to_vec())); }
        35 => { let r0: Vec<_> = s.floats(6); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.set_text_matrix(<[_; 6]>::try_from(r0.iter().map(|r| *r).collect::<Vec<_>>()).ok().unwrap()); out.push(([e0].concat(), b"Tm".to_vec())); }
        36 => {  w.next_line_using_leading(); out.push((vec![], b"T*".to_vec())); }
        37 => { let x0 = s.string(); w.show(Str(&x0)); out.push(([vec![V::Str(x0.clone())]].concat(), b"Tj".to_vec())); }
        38 => { let x0 = s.string(); w.next_line_show(Str(&x0)); out.push(([vec![V::Str(x0.clone())]].concat(), b"'".to_vec())); }
        39 => { let x0 = s.f32(); let x1 = s.f32(); let x2 = s.string(); w.next_line_show_and_set_word_and_char_spacing(x0, x1, Str(&x2)); out.push(([vec![V::Real(x0)], vec![V::Real(x1)], vec![V::Str(x2.clone())]].concat(), b"\"".to_vec())); }
        40 => { let x0 = s.f32(); w.start_color_glyph(x0); out.push(([vec![V::Real(x0)], vec![V::Real(0.0)]].concat(), b"d0".to_vec())); }
        41 => { let x0 = s.f32(); let x1 = s.f32(); let x2 = s.f32(); let x3 = s.f32(); let x4 = s.f32(); w.start_shape_glyph(x0, x1, x2, x3, x4); out.push(([vec![V::Real(x0)], vec![V::Real(0.0)], vec![V::Real(x1)], vec![V::Real(x2)], vec![V::Real(x3)], vec![V::Real(x4)]].concat(), b"d1".to_vec())); }
        42 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.f32()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.set_stroke_color(r0.iter().map(|r| *r)); out.push(([e0].concat(), b"SCN".to_vec())); }
        43 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.f32()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); let x1 = s.string(); w.set_stroke_pattern(r0.iter().map(|r| *r), Name(&x1)); out.push(([e0, vec![V::Name(x1.clone())]].concat(), b"SCN".to_vec())); }
        44 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.f32()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); w.set_fill_color(r0.iter().map(|r| *r)); out.push(([e0].concat(), b"scn".to_vec())); }
        45 => { let r0: Vec<_> = (0..s.count(5)).map(|_| s.f32()).collect(); let e0: Vec<V> = r0.iter().map(|r| V::Real(*r)).collect(); let x1 = s.string(); w.set_fill_pattern(r0.iter().map(|r| *r), Name(&x1)); out.push(([e0, vec![V::Name(x1.clone())]].concat(), b"scn".to_vec())); }
        46 => { let x0 = s.f32(); w.set_stroke_gray(x0); out.push(([vec![V::Real(x0)]].concat(), b"G".to_vec())); }
        47 => { let x0 = s.f32(); w.set_fill_gray(x0); out.push(([vec![V::Real(x0)]].concat(), b"g".to_vec())); }
        48 => { let x0 = s.f32(); let x1 = s.f32(); let x2 = s.f32(); w.set_stroke_rgb(x0, x1, x2); out.push(([vec![V::Real(x0)], vec![V::Real(x1)], vec![V::Real(x2)]].concat(), b"RG".to_vec())); }
        49 => { let x0 = s.f32(); let x1 = s.f32(); let x2 = s.f32(); w.set_fill_rgb(x0, x1, x2); out.push(([vec![V::Real(x0)], vec![V::Real(x1)], vec![V::Real(x2)]].concat(), b"rg".to_vec())); }
        50 => { let x0 = s.f32(); let x1 = s.f32(); let x2 = s.f32(); let x3 = s.f32(); w.set_stroke_cmyk(x0, x1, x2, x3); out.push(([vec![V::Real(x0)], vec![V::Real(x1)], vec![V::Real(x2)], vec![V::Real(x3)]].concat(), b"K".to_vec())); }
        51 => { let x0 = s.f32(); let x1 = s.f32(); let x2 = s.f32(); let x3 = s.f32(); w.set_fill_cmyk(x0, x1, x2, x3); out.push(([vec![V::Real(x0)], vec![V::Real(x1)], vec![V::Real(x2)], vec![V::Real(x3)]].concat(), b"k".to_vec())); }
        52 => { let x0 = s.string(); w.shading(Name(&x0)); out.push(([vec![V::Name(x0.clone())]].concat(), b"sh".to_vec())); }
        53 => { let x0 = s.string(); w.x_object(Name(&x0)); out.push(([vec![V::Name(x0.clone())]].concat(), b"Do".to_vec())); }
        54 => { let x0 = s.string(); w.marked_content_point(Name(&x0)); out.push(([vec![V::Name(x0.clone())]].concat(), b"MP".to_vec())); }
        55 => { let x0 = s.string(); w.begin_marked_content(Name(&x0)); out.push(([vec![V::Name(x0.clone())]].concat(), b"BMC".to_vec())); }
        56 => {  w.end_marked_content(); out.push((vec![], b"EMC".to_vec())); }
        57 => {  w.begin_compat(); out.push((vec![], b"BX".to_vec())); }
        58 => {  w.end_compat(); out.push((vec![], b"EX".to_vec())); }
        59 => special::content_set_line_width(w, s, out),
        60 => special::content_set_dash_pattern(w, s, out),
        61 => special::content_set_flatness(w, s, out),
        62 => special::content_save_state(w, s, out),
        63 => special::content_restore_state(w, s, out),
        64 => special::content_show_positioned(w, s, out),
        65 => special::content_set_stroke_color_space(w, s, out),
        66 => special::content_set_fill_color_space(w, s, out),
        67 => special::content_marked_content_point_with_properties(w, s, out),
        68 => special::content_begin_marked_content_with_properties(w, s, out),
        69 => special::content_op(w, s, out),
        _ => {}
    }
}
pub static ENUM_OPS: &[(usize, u8, usize)] = &[(0, N_LINE_CAP_STYLE, 0), (1, N_LINE_JOIN_STYLE, 0), (3, N_RENDERING_INTENT, 0), (31, N_TEXT_RENDERING_MODE, 0)];
