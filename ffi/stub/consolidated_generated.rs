// Hand-written stand-in for the flatc output (flatc is not installed here): readers of the
// tables of /repo/fbs/spreadsheet_2007 and presentation_2007 the FFI sources use.
// Field order, types and defaults follow the .fbs files. `border_left` returns the library's
// type, as the FFI source assigns it without conversion.
pub mod openxml_office_fbs {
    macro_rules! table {
        ($name:ident) => {
            #[derive(Copy, Clone, PartialEq)]
            pub struct $name<'a> {
                pub _tab: flatbuffers::Table<'a>,
            }
            impl<'a> flatbuffers::Follow<'a> for $name<'a> {
                type Inner = $name<'a>;
                #[inline]
                unsafe fn follow(buf: &'a [u8], loc: usize) -> Self::Inner {
                    Self {
                        _tab: flatbuffers::Table::new(buf, loc),
                    }
                }
            }
        };
    }
    macro_rules! flag {
        ($name:ident, $slot:expr) => {
            pub fn $name(&self) -> bool {
                unsafe { self._tab.get::<bool>($slot, Some(false)).unwrap() }
            }
        };
    }
    macro_rules! text {
        ($name:ident, $slot:expr) => {
            pub fn $name(&self) -> Option<&'a str> {
                unsafe {
                    self._tab
                        .get::<flatbuffers::ForwardsUOffset<&str>>($slot, None)
                }
            }
        };
    }
    pub mod spreadsheet_2007 {
        use flatbuffers::{InvalidFlatbuffer, Verifiable, Verifier};
        table!(ExcelPropertiesModel);
        impl Verifiable for ExcelPropertiesModel<'_> {
            fn run_verifier(v: &mut Verifier, pos: usize) -> Result<(), InvalidFlatbuffer> {
                v.visit_table(pos)?
                    .visit_field::<bool>("is_in_memory", 4, false)?
                    .visit_field::<bool>("is_editable", 6, false)?
                    .finish();
                Ok(())
            }
        }
        impl<'a> ExcelPropertiesModel<'a> {
            flag!(is_in_memory, 4);
            flag!(is_editable, 6);
        }
        table!(StyleSetting);
        impl Verifiable for StyleSetting<'_> {
            fn run_verifier(v: &mut Verifier, pos: usize) -> Result<(), InvalidFlatbuffer> {
                type Text<'a> = flatbuffers::ForwardsUOffset<&'a str>;
                v.visit_table(pos)?
                    .visit_field::<u16>("number_format", 4, false)?
                    .visit_field::<Text>("custom_number_format", 6, false)?
                    .visit_field::<Text>("font_family", 18, false)?
                    .visit_field::<u8>("font_size", 20, false)?
                    .visit_field::<Text>("text_color", 22, false)?
                    .visit_field::<bool>("is_bold", 24, false)?
                    .visit_field::<bool>("is_italic", 26, false)?
                    .visit_field::<bool>("is_underline", 28, false)?
                    .visit_field::<bool>("is_double_underline", 30, false)?
                    .visit_field::<bool>("is_wrap_text", 32, false)?
                    .visit_field::<Text>("background_color", 34, false)?
                    .visit_field::<Text>("foreground_color", 36, false)?
                    .finish();
                Ok(())
            }
        }
        impl<'a> StyleSetting<'a> {
            pub fn number_format(&self) -> u16 {
                unsafe { self._tab.get::<u16>(4, Some(0)).unwrap() }
            }
            text!(custom_number_format, 6);
            pub fn border_left(
                &self,
            ) -> draviavemal_openxml_office::spreadsheet_2007::models::BorderSetting {
                Default::default()
            }
            text!(font_family, 18);
            pub fn font_size(&self) -> u8 {
                unsafe { self._tab.get::<u8>(20, Some(0)).unwrap() }
            }
            text!(text_color, 22);
            flag!(is_bold, 24);
            flag!(is_italic, 26);
            flag!(is_underline, 28);
            flag!(is_double_underline, 30);
            flag!(is_wrap_text, 32);
            text!(background_color, 34);
            text!(foreground_color, 36);
        }
    }
    pub mod presentation_2007 {
        use flatbuffers::{InvalidFlatbuffer, Verifiable, Verifier};
        table!(PresentationPropertiesModel);
        impl Verifiable for PresentationPropertiesModel<'_> {
            fn run_verifier(v: &mut Verifier, pos: usize) -> Result<(), InvalidFlatbuffer> {
                v.visit_table(pos)?
                    .visit_field::<bool>("is_in_memory", 4, false)?
                    .finish();
                Ok(())
            }
        }
        impl<'a> PresentationPropertiesModel<'a> {
            flag!(is_in_memory, 4);
        }
    }
    pub mod document_2007 {
        pub use super::presentation_2007::PresentationPropertiesModel as WordPropertiesModel;
    }
}
