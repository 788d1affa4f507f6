//! The operators of dictionaries and glyph programs, written down from the
//! specifications (Adobe Technical Notes 5176 and 5177).

use crate::num::Val::{self, Int, Real};
use postscript::compact1::Operator as D;
use postscript::type2::Operator as T;

/// The code, the operator, the default.
pub const DICTIONARY: [(u16, D, &[Val]); 61] = [
    (0x00, D::Version, &[]),
    (0x01, D::Notice, &[]),
    (0x02, D::FullName, &[]),
    (0x03, D::FamilyName, &[]),
    (0x04, D::Weight, &[]),
    (0x05, D::FontBBox, &[Int(0), Int(0), Int(0), Int(0)]),
    (0x06, D::BlueValues, &[]),
    (0x07, D::OtherBlues, &[]),
    (0x08, D::FamilyBlues, &[]),
    (0x09, D::FamilyOtherBlues, &[]),
    (0x0a, D::StdHW, &[]),
    (0x0b, D::StdVW, &[]),
    (0x0d, D::UniqueID, &[]),
    (0x0e, D::XUID, &[]),
    (0x0f, D::CharSet, &[Int(0)]),
    (0x10, D::Encoding, &[Int(0)]),
    (0x11, D::CharStrings, &[]),
    (0x12, D::Private, &[]),
    (0x13, D::Subrs, &[]),
    (0x14, D::DefaultWidthX, &[Int(0)]),
    (0x15, D::NominalWidthX, &[Int(0)]),
    (0x0c00, D::Copyright, &[]),
    (0x0c01, D::IsFixedPitch, &[Int(0)]),
    (0x0c02, D::ItalicAngle, &[Int(0)]),
    (0x0c03, D::UnderlinePosition, &[Int(-100)]),
    (0x0c04, D::UnderlineThickness, &[Int(50)]),
    (0x0c05, D::PaintType, &[Int(0)]),
    (0x0c06, D::CharStringType, &[Int(2)]),
    (
        0x0c07,
        D::FontMatrix,
        &[Real(0.001), Real(0.0), Real(0.0), Real(0.001), Real(0.0), Real(0.0)],
    ),
    (0x0c08, D::StrokeWidth, &[Int(0)]),
    (0x0c09, D::BlueScale, &[Real(0.039625)]),
    (0x0c0a, D::BlueShift, &[Int(7)]),
    (0x0c0b, D::BlueFuzz, &[Int(1)]),
    (0x0c0c, D::StemSnapH, &[]),
    (0x0c0d, D::StemSnapV, &[]),
    (0x0c0e, D::ForceBold, &[Int(0)]),
    (0x0c11, D::LanguageGroup, &[Int(0)]),
    (0x0c12, D::ExpansionFactor, &[Real(0.06)]),
    (0x0c13, D::InitialRandomSeed, &[Int(0)]),
    (0x0c14, D::SyntheticBase, &[]),
    (0x0c15, D::PostScript, &[]),
    (0x0c16, D::BaseFontName, &[]),
    (0x0c17, D::BaseFontBlend, &[]),
    (0x0c1e, D::ROS, &[]),
    (0x0c1f, D::CIDFontVersion, &[Int(0)]),
    (0x0c20, D::CIDFontRevision, &[Int(0)]),
    (0x0c21, D::CIDFontType, &[Int(0)]),
    (0x0c22, D::CIDCount, &[Int(8720)]),
    (0x0c23, D::UIDBase, &[]),
    (0x0c24, D::FDArray, &[]),
    (0x0c25, D::FDSelect, &[]),
    (0x0c26, D::FontName, &[]),
    // Repeated so that the common ones are picked more often
    (0x00, D::Version, &[]),
    (0x05, D::FontBBox, &[Int(0), Int(0), Int(0), Int(0)]),
    (0x06, D::BlueValues, &[]),
    (0x0b, D::StdVW, &[]),
    (0x14, D::DefaultWidthX, &[Int(0)]),
    (0x15, D::NominalWidthX, &[Int(0)]),
    (0x0c0a, D::BlueShift, &[Int(7)]),
    (0x0c22, D::CIDCount, &[Int(8720)]),
    (0x0c26, D::FontName, &[]),
];

/// The number of distinct operators above.
pub const DICTIONARY_COUNT: usize = 52;

pub fn dictionary(code: u16) -> Option<&'static (u16, D, &'static [Val])> {
    DICTIONARY[..DICTIONARY_COUNT].iter().find(|entry| entry.0 == code)
}

pub const CHAR_SET: u16 = 0x0f;
pub const ENCODING: u16 = 0x10;
pub const CHAR_STRINGS: u16 = 0x11;
pub const PRIVATE: u16 = 0x12;
pub const SUBRS: u16 = 0x13;
pub const CHAR_STRING_TYPE: u16 = 0x0c06;
pub const ROS: u16 = 0x0c1e;
pub const FD_ARRAY: u16 = 0x0c24;
pub const FD_SELECT: u16 = 0x0c25;

/// The operators of glyph programs.
pub const PROGRAM: [(u16, T); 47] = [
    (0x01, T::HStem),
    (0x03, T::VStem),
    (0x04, T::VMoveTo),
    (0x05, T::RLineTo),
    (0x06, T::HLineTo),
    (0x07, T::VLineTo),
    (0x08, T::RRCurveTo),
    (0x0a, T::CallSubr),
    (0x0b, T::Return),
    (0x0e, T::EndChar),
    (0x12, T::HStemHM),
    (0x13, T::HintMask),
    (0x14, T::CntrMask),
    (0x15, T::RMoveTo),
    (0x16, T::HMoveTo),
    (0x17, T::VStemHM),
    (0x18, T::RCurveLine),
    (0x19, T::RLineCurve),
    (0x1a, T::VVCurveTo),
    (0x1b, T::HHCurveTo),
    (0x1d, T::CallGSubr),
    (0x1e, T::VHCurveTo),
    (0x1f, T::HVCurveTo),
    (0x0c03, T::And),
    (0x0c04, T::Or),
    (0x0c05, T::Not),
    (0x0c09, T::Abs),
    (0x0c0a, T::Add),
    (0x0c0b, T::Sub),
    (0x0c0c, T::Div),
    (0x0c0e, T::Neg),
    (0x0c0f, T::Eq),
    (0x0c12, T::Drop),
    (0x0c14, T::Put),
    (0x0c15, T::Get),
    (0x0c16, T::IfElse),
    (0x0c17, T::Random),
    (0x0c18, T::Mul),
    (0x0c1a, T::Sqrt),
    (0x0c1b, T::Dup),
    (0x0c1c, T::Exch),
    (0x0c1d, T::Index),
    (0x0c1e, T::Roll),
    (0x0c22, T::HFlex),
    (0x0c23, T::Flex),
    (0x0c24, T::HFlex1),
    (0x0c25, T::Flex1),
];
