From ff5380dcbba1f524fac43d8fe0cca0263665ae0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 01/30] fix: keep text, CDATA and attribute values exact when
 reading and writing XML

Leading/trailing white space was trimmed, attribute values were escaped again
on every save, CDATA and text after a comment were lost, an empty root element
was refused, truncated content was accepted and characters that XML does not
allow were written.
---
 rs/src/files/xml/xml_deserialize.rs |  36 +++++-
 rs/src/files/xml/xml_serialize.rs   | 179 +++++++++++++++++++---------
 rs/src/files/xml/xml_tree.rs        |   9 ++
 3 files changed, 164 insertions(+), 60 deletions(-)

diff --git a/rs/src/files/xml/xml_deserialize.rs b/rs/src/files/xml/xml_deserialize.rs
index 3b6c24a..536cc25 100644
--- a/rs/src/files/xml/xml_deserialize.rs
+++ b/rs/src/files/xml/xml_deserialize.rs
@@ -1,5 +1,5 @@
 use crate::{
-    files::{XmlDocument, XmlElement},
+    files::{xml::xml_tree::is_xml_char, XmlDocument, XmlElement},
     log_elapsed,
 };
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
@@ -37,7 +37,13 @@ impl XmlDeSerializer {
             },
             format!("Deserialize File : {}", file_name)
         )?;
-        Ok(xml_content.as_bytes().to_vec())
+        if !xml_content.chars().all(is_xml_char) {
+            return Err(anyhow!(
+                "Content has a character not allowed in XML, File : {}",
+                file_name
+            ));
+        }
+        Ok(xml_content.into_bytes())
     }
 
     fn build_xml_tree(
@@ -131,9 +137,9 @@ impl XmlDeSerializer {
                             .iter()
                             .map(|(key, value)| {
                                 if key == "<Default>" {
-                                    format!("xmlns=\"{}\"", value)
+                                    format!("xmlns=\"{}\"", Self::escape_attribute(value))
                                 } else {
-                                    format!("xmlns:{}=\"{}\"", key, value)
+                                    format!("xmlns:{}=\"{}\"", key, Self::escape_attribute(value))
                                 }
                             })
                             .collect::<Vec<String>>()
@@ -150,7 +156,13 @@ impl XmlDeSerializer {
                 format!(
                     " {}",
                     keys.iter()
-                        .map(|key| format!("{}=\"{}\"", key, escape(attributes.get(key).unwrap())))
+                        .map(|key| {
+                            format!(
+                                "{}=\"{}\"",
+                                key,
+                                Self::escape_attribute(attributes.get(key).unwrap())
+                            )
+                        })
                         .collect::<Vec<String>>()
                         .join(" ")
                 )
@@ -166,6 +178,18 @@ impl XmlDeSerializer {
     }
 
     fn generate_xml_value_close(value: &str, xml_element: &XmlElement) -> String {
-        format!("{}</{}>", escape(value), xml_element.get_tag())
+        format!(
+            "{}</{}>",
+            escape(value).replace('\r', "&#13;"),
+            xml_element.get_tag()
+        )
+    }
+
+    /// Escape including the white space a reader would otherwise normalize
+    fn escape_attribute(value: &str) -> String {
+        escape(value)
+            .replace('\t', "&#9;")
+            .replace('\n', "&#10;")
+            .replace('\r', "&#13;")
     }
 }
diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index d3c8ede..1798e0e 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -1,6 +1,8 @@
+use crate::files::xml::xml_tree::is_xml_char;
 use crate::files::XmlDocument;
 use crate::log_elapsed;
 use anyhow::{anyhow, Context, Error as AnyError, Ok, Result as AnyResult};
+use quick_xml::escape::unescape;
 use quick_xml::events::BytesStart;
 use quick_xml::{
     events::{
@@ -20,7 +22,6 @@ impl XmlSerializer {
     ) -> AnyResult<XmlDocument, AnyError> {
         let mut reader: NsReader<Cursor<Vec<u8>>> = NsReader::from_reader(Cursor::new(xml_str));
         let mut xml_document = XmlDocument::new();
-        reader.config_mut().trim_text(true);
         log_elapsed!(
             || {
                 Self::xml_element_parser(&mut reader, &mut xml_document)
@@ -37,7 +38,8 @@ impl XmlSerializer {
     ) -> AnyResult<(), AnyError> {
         let mut temp_buffer: Vec<u8> = Vec::new();
         let mut root_loaded = false;
-        let mut active_xml_element_id: usize = 0;
+        // Element ids from the root down to the element currently open
+        let mut open_elements: Vec<usize> = Vec::new();
         loop {
             match reader.read_event_into(&mut temp_buffer) {
                 // Handle errors
@@ -46,70 +48,60 @@ impl XmlSerializer {
                 Result::Ok(Event::Decl(_)) => {}
                 // Read start tag and attributes
                 Result::Ok(Event::Start(element)) => {
-                    let tag: String =
-                        String::from_utf8_lossy(element.name().into_inner()).to_string();
-                    let attributes = Self::get_attributes_string(element)?;
-                    // Update tree structure
-                    if root_loaded {
-                        // Add child to parent
-                        active_xml_element_id = xml_document
-                            .append_child_mut(&tag, Some(&active_xml_element_id))
-                            .context("Insert XML Child Failed.")?
-                            .set_attribute_mut(attributes)
-                            .context("Attribute Update Error")?
-                            .get_id();
-                    } else {
-                        // Create the root element
-                        active_xml_element_id = xml_document
-                            .create_root_mut(&tag)
-                            .context("Create XML Root Element Failed")?
-                            .set_attribute_mut(attributes)
-                            .context("Attribute Update Error")?
-                            .get_id();
-                        root_loaded = true
-                    }
+                    let element_id = Self::insert_element(
+                        element,
+                        xml_document,
+                        open_elements.last(),
+                        &mut root_loaded,
+                    )?;
+                    open_elements.push(element_id);
                 }
 
                 // Handle empty elements (self-closing tags)
                 Result::Ok(Event::Empty(element)) => {
-                    let tag: String =
-                        String::from_utf8_lossy(element.name().into_inner()).to_string();
-                    let attributes = Self::get_attributes_string(element)?;
-                    xml_document
-                        .append_child_mut(&tag, Some(&active_xml_element_id))
-                        .context("Insert XML Child Failed.")?
-                        .set_attribute_mut(attributes)
-                        .context("Parser Attribute Validation Failed")?;
+                    Self::insert_element(
+                        element,
+                        xml_document,
+                        open_elements.last(),
+                        &mut root_loaded,
+                    )?;
                 }
 
                 // Read text content
                 Result::Ok(Event::Text(byte_text)) => {
-                    let text = byte_text.unescape().context("XML Text parsing error")?;
-                    xml_document
-                        .get_element_mut(&active_xml_element_id)
-                        .ok_or(anyhow!("Converting Option to Result Failed"))
-                        .context("Getting Target Element Failed")?
-                        .set_value_mut(text.to_string());
+                    let text = std::str::from_utf8(&byte_text)
+                        .context("XML Text is not valid UTF-8")?
+                        .replace("\r\n", "\n")
+                        .replace('\r', "\n");
+                    let text = unescape(&text).context("XML Text parsing error")?;
+                    Self::append_text(&text, xml_document, open_elements.last())?;
+                }
+
+                // Read CDATA content
+                Result::Ok(Event::CData(byte_text)) => {
+                    let text = std::str::from_utf8(&byte_text)
+                        .context("XML CDATA is not valid UTF-8")?
+                        .replace("\r\n", "\n")
+                        .replace('\r', "\n");
+                    Self::append_text(&text, xml_document, open_elements.last())?;
                 }
 
                 // Handle end tag
-                Result::Ok(Event::End(element)) => {
+                Result::Ok(Event::End(_)) => {
                     // Pop the active element back to the parent
-                    let tag: String =
-                        String::from_utf8_lossy(element.name().into_inner()).to_string();
-                    let element = xml_document
-                        .get_element_mut(&active_xml_element_id)
-                        .ok_or(anyhow!("Converting Option to Result Failed"))
-                        .context("Getting Target Element Failed")?;
-                    if element.get_tag() == tag {
-                        active_xml_element_id = element.get_parent_id()
-                    } else {
-                        break Err(anyhow!("Invalid XML Tree Parsing Failed."));
-                    }
+                    open_elements
+                        .pop()
+                        .ok_or(anyhow!("Invalid XML Tree Parsing Failed."))?;
                 }
 
                 // End of file
-                Result::Ok(Event::Eof) => break Ok(()),
+                Result::Ok(Event::Eof) => {
+                    break if root_loaded && open_elements.is_empty() {
+                        Ok(())
+                    } else {
+                        Err(anyhow!("XML content is incomplete."))
+                    }
+                }
 
                 // Default case for other events
                 _ => {}
@@ -118,15 +110,94 @@ impl XmlSerializer {
         }
     }
 
+    /// Add the element to the tree and return its id
+    fn insert_element(
+        element: BytesStart,
+        xml_document: &mut XmlDocument,
+        parent_id: Option<&usize>,
+        root_loaded: &mut bool,
+    ) -> AnyResult<usize, AnyError> {
+        let tag: String = std::str::from_utf8(element.name().into_inner())
+            .context("XML Tag is not valid UTF-8")?
+            .to_string();
+        let attributes = Self::get_attributes_string(element)?;
+        let new_element = if let Some(parent_id) = parent_id {
+            // Indentation before a child is not content
+            if let Some(parent) = xml_document.get_element_mut(parent_id) {
+                if parent
+                    .get_value()
+                    .as_ref()
+                    .is_some_and(|value| Self::is_white_space(value))
+                {
+                    parent.clear_value_mut();
+                }
+            }
+            xml_document
+                .append_child_mut(&tag, Some(parent_id))
+                .context("Insert XML Child Failed.")?
+        } else if *root_loaded {
+            return Err(anyhow!("XML content has more than one root element."));
+        } else {
+            *root_loaded = true;
+            xml_document
+                .create_root_mut(&tag)
+                .context("Create XML Root Element Failed")?
+        };
+        Ok(new_element
+            .set_attribute_mut(attributes)
+            .context("Attribute Update Error")?
+            .get_id())
+    }
+
+    /// Append text to the open element, keeping white space of elements without child
+    fn append_text(
+        text: &str,
+        xml_document: &mut XmlDocument,
+        element_id: Option<&usize>,
+    ) -> AnyResult<(), AnyError> {
+        if !text.chars().all(is_xml_char) {
+            return Err(anyhow!("XML Text has a character not allowed in XML."));
+        }
+        if let Some(element_id) = element_id {
+            let element = xml_document
+                .get_element_mut(element_id)
+                .ok_or(anyhow!("Converting Option to Result Failed"))
+                .context("Getting Target Element Failed")?;
+            if element.get_child_count() == 0 || !Self::is_white_space(text) {
+                let mut value = element.get_value().clone().unwrap_or_default();
+                value.push_str(text);
+                element.set_value_mut(value);
+            }
+            Ok(())
+        } else if Self::is_white_space(text) {
+            Ok(())
+        } else {
+            Err(anyhow!("XML Text found outside the root element."))
+        }
+    }
+
+    fn is_white_space(text: &str) -> bool {
+        text.chars().all(|c| matches!(c, ' ' | '\t' | '\n' | '\r'))
+    }
+
     fn get_attributes_string(element: BytesStart) -> AnyResult<HashMap<String, String>, AnyError> {
         element
             .attributes()
             .map(|attribute_result: Result<Attribute<'_>, AttrError>| {
                 let attribute: Attribute<'_> =
                     attribute_result.context("Failed to parse attribute")?;
-                let key: String = String::from_utf8_lossy(attribute.key.into_inner()).to_string();
-                let value: String = String::from_utf8_lossy(&attribute.value).to_string();
-                Ok((key, value))
+                let key: String = std::str::from_utf8(attribute.key.into_inner())
+                    .context("XML Attribute name is not valid UTF-8")?
+                    .to_string();
+                let value = std::str::from_utf8(&attribute.value)
+                    .context("XML Attribute value is not valid UTF-8")?
+                    .replace("\r\n", " ")
+                    .replace(['\t', '\n', '\r'], " ");
+                let value = unescape(&value).context("XML Attribute value parsing error")?;
+                if !value.chars().all(is_xml_char) {
+                    return Err(anyhow!("XML Attribute has a character not allowed in XML."));
+                }
+                Ok((key, value.to_string()))
             })
             .collect::<AnyResult<HashMap<String, String>>>()
     }
diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index c23d203..47f55ed 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -316,6 +316,11 @@ impl XmlDocument {
     }
 }
 
+/// Check the character can be part of XML content
+pub(crate) fn is_xml_char(c: char) -> bool {
+    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{FFFD}' | '\u{10000}'..)
+}
+
 #[derive(Debug)]
 pub(crate) struct XmlElementChild {
     id: usize,
@@ -533,6 +538,10 @@ impl XmlElement {
         self
     }
 
+    pub(crate) fn clear_value_mut(&mut self) {
+        self.value = None;
+    }
+
     fn append_children_mut(&mut self, child_id: usize, tag: &str) -> AnyResult<(), AnyError> {
         self.children
             .try_borrow_mut()
-- 
2.43.0


From 751498cadeda0c179543e64d6e9798279891519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 02/30] fix: keep namespace declarations where they are
 declared

A declaration on a nested element was moved to the root, where it changed the
namespace of other elements. Children are kept in a deque as removing the first
one of a long list repeatedly took quadratic time.
---
 rs/src/files/xml/xml_tree.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 47f55ed..79a3ec6 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -1,7 +1,7 @@
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
-    collections::HashMap,
+    collections::{HashMap, VecDeque},
     rc::{Rc, Weak},
 };
 
@@ -340,7 +340,7 @@ pub(crate) struct XmlElement {
     /// Internal Value of the
     value: Option<String>,
     /// Child Element Names to pull up nodes quickly
-    children: Rc<RefCell<Vec<XmlElementChild>>>,
+    children: Rc<RefCell<VecDeque<XmlElementChild>>>,
     // ######################## Document Parts ##########################
     /// XML Namespace collection
     namespace_collection_ref: Weak<RefCell<HashMap<String, String>>>,
@@ -359,7 +359,7 @@ impl XmlElement {
                 tag: tag.to_string(),
                 attributes: None,
                 value: None,
-                children: Rc::new(RefCell::new(Vec::new())),
+                children: Rc::new(RefCell::new(VecDeque::new())),
                 namespace_collection_ref: namespace_collection,
             })
         } else {
@@ -452,12 +452,10 @@ impl XmlElement {
 impl XmlElement {
     /// Remove the child reference irreversible
     pub(crate) fn pop_child_mut(&self) -> Option<(usize, String)> {
-        if self.children.borrow_mut().len() > 0 {
-            let child_element = self.children.borrow_mut().remove(0);
-            Some((child_element.id, child_element.tag))
-        } else {
-            None
-        }
+        self.children
+            .borrow_mut()
+            .pop_front()
+            .map(|child_element| (child_element.id, child_element.tag))
     }
 
     pub(crate) fn get_attribute_mut(&mut self) -> Option<&mut HashMap<String, String>> {
@@ -471,7 +469,7 @@ impl XmlElement {
                 .enumerate()
                 .map(|(index, &tag)| (tag, index))
                 .collect();
-            self.children.borrow_mut().sort_by_key(|item| {
+            self.children.borrow_mut().make_contiguous().sort_by_key(|item| {
                 order_map
                     .get(item.tag.as_str())
                     .cloned()
@@ -500,9 +498,14 @@ impl XmlElement {
         let ns_keys = keys
             .iter()
             .map(|item| item.to_string())
-            .filter(|item| item.starts_with("xmlns"))
+            .filter(|item| item == "xmlns" || item.starts_with("xmlns:"))
             .clone()
             .collect::<Vec<String>>();
+        // Only the root declarations are in scope for the full document
+        if self.id != 0 {
+            self.attributes = Some(attributes);
+            return Ok(self);
+        }
         if !ns_keys.is_empty() {
             if let Some(ns_collection) = self.namespace_collection_ref.upgrade() {
                 let mut namespace_collection = ns_collection
@@ -546,7 +549,7 @@ impl XmlElement {
         self.children
             .try_borrow_mut()
             .context("Failed to Pull children handle")?
-            .push(XmlElementChild {
+            .push_back(XmlElementChild {
                 id: child_id,
                 tag: tag.to_string(),
             });
@@ -585,7 +588,7 @@ impl XmlElement {
                 },
             );
         } else {
-            children.push(XmlElementChild {
+            children.push_back(XmlElementChild {
                 id: child_id,
                 tag: tag.to_string(),
             });
-- 
2.43.0


From e9c8fa87f253175433d46847572a9bfbd0d9ae80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 03/30] fix: keep worksheet children in schema order

sheetProtection, legacyDrawing and elements of other namespaces were moved
behind extLst. Names with letters outside the alphabetic class are valid.
---
 rs/src/files/xml/xml_tree.rs                 | 33 +++++++++++++++-----
 rs/src/global/references/order_dictionary.rs |  4 +--
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 79a3ec6..d0d9892 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -369,10 +369,19 @@ impl XmlElement {
 
     fn is_valid_xml_name(name: &str) -> bool {
         fn is_name_start_char(c: char) -> bool {
-            c.is_ascii_alphabetic() || c == '_' || c.is_alphabetic()
+            c.is_ascii_alphabetic()
+                || matches!(c, '_' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}'
+                    | '\u{F8}'..='\u{2FF}' | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}'
+                    | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}'
+                    | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}'
+                    | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}'
+                    | '\u{10000}'..='\u{EFFFF}')
         }
         fn is_name_char(c: char) -> bool {
-            is_name_start_char(c) || c.is_ascii_digit() || c == '-' || c == '.' || c == ':'
+            is_name_start_char(c)
+                || c.is_ascii_digit()
+                || matches!(c, '-' | '.' | ':' | '\u{B7}' | '\u{300}'..='\u{36F}'
+                    | '\u{203F}'..='\u{2040}')
         }
         if name.is_empty() {
             return false;
@@ -469,12 +478,20 @@ impl XmlElement {
                 .enumerate()
                 .map(|(index, &tag)| (tag, index))
                 .collect();
-            self.children.borrow_mut().make_contiguous().sort_by_key(|item| {
-                order_map
-                    .get(item.tag.as_str())
-                    .cloned()
-                    .unwrap_or(usize::MAX)
-            });
+            let mut children = self.children.borrow_mut();
+            // An element without defined order stays behind its previous sibling
+            let mut position = 0;
+            let mut ordered_children = children
+                .drain(..)
+                .map(|item| {
+                    if let Some(order) = order_map.get(item.tag.as_str()) {
+                        position = *order;
+                    }
+                    (position, item)
+                })
+                .collect::<Vec<(usize, XmlElementChild)>>();
+            ordered_children.sort_by_key(|item| item.0);
+            children.extend(ordered_children.into_iter().map(|item| item.1));
         }
         Ok(())
     }
diff --git a/rs/src/global/references/order_dictionary.rs b/rs/src/global/references/order_dictionary.rs
index 366d6b6..1eb8c4c 100644
--- a/rs/src/global/references/order_dictionary.rs
+++ b/rs/src/global/references/order_dictionary.rs
@@ -11,7 +11,7 @@ pub(crate) static EXCEL_ORDER_COLLECTION: Map<&'static str, &'static [&'static s
     ],
     "worksheet"=>&["sheetPr","dimension","sheetViews",
         "sheetFormatPr","cols","sheetData",
-        "sheetCalcPr","protectedRanges","scenarios",
+        "sheetCalcPr","sheetProtection","protectedRanges","scenarios",
         "autoFilter","sortState","dataConsolidate",
         "customSheetViews","mergeCells","phoneticPr",
         "conditionalFormatting",
@@ -19,7 +19,7 @@ pub(crate) static EXCEL_ORDER_COLLECTION: Map<&'static str, &'static [&'static s
         "pageMargins","pageSetup","headerFooter",
         "rowBreaks","colBreaks","customProperties",
         "cellWatches","ignoredErrors","smartTags",
-        "drawing","drawingHF","picture",
+        "drawing","legacyDrawing","legacyDrawingHF","drawingHF","picture",
         "oleObjects","controls","webPublishItems",
         "tableParts","extLst",
     ],
-- 
2.43.0


From f7d5e87f0c83915be2ef45b067ea06771e22ef81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 04/30] fix: keep the source part while it is open and forget
 deleted parts

Opening a part removed it from the package, so a failed open left a damaged part
to be saved and a new sheet could take the path of an open one; deleting a part
left its open handle to be written again. The relationships of a workbook are
those of its own part name.
---
 rs/src/files/office_document.rs               | 15 +++-
 rs/src/global/global_2007/parts/relations.rs  | 23 +++++-
 .../spreadsheet_2007/parts/workbook.rs        |  5 +-
 .../spreadsheet_2007/parts/worksheet.rs       | 74 ++++++++++++-------
 4 files changed, 81 insertions(+), 36 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index 85c2dbb..ad04f34 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -50,12 +50,19 @@ impl OfficeDocument {
 
     pub(crate) fn check_file_exist(&self, file_path: String) -> bool {
         self.archive_collection.contains_key(&file_path)
+            || self.xml_document_collection.contains_key(&file_path)
     }
 
     pub(crate) fn delete_document_mut(&mut self, file_name: &str) {
+        self.xml_document_collection.remove(file_name);
         self.archive_collection.remove(file_name);
     }
 
+    /// Close the open handle without update, the content loaded from source is kept
+    pub(crate) fn discard_xml_document(&mut self, file_path: &str) {
+        self.xml_document_collection.remove(file_path);
+    }
+
     pub(crate) fn get_xml_document_ref(
         &mut self,
         file_name: &str,
@@ -90,11 +97,13 @@ impl OfficeDocument {
             ));
         }
         if let Some((file_extension, extension_type, content_type, _, _, _, file_content)) =
-            self.archive_collection.remove(file_path)
+            self.archive_collection.get(file_path)
         {
-            let content = file_content.ok_or(anyhow!("Failed To Get content vec"))?;
+            let content = file_content
+                .as_ref()
+                .ok_or(anyhow!("Failed To Get content vec"))?;
             let decompressed_data =
-                decompress_content(&content).context("Raw Content Decompression Failed")?;
+                decompress_content(content).context("Raw Content Decompression Failed")?;
             let xml_tree: XmlDocument =
                 XmlSerializer::vec_to_xml_doc_tree(decompressed_data, file_path)
                     .context("Xml Serializer Failed")?;
diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index dfc4258..561ae31 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -77,8 +77,19 @@ impl RelationsPart {
         file_name: &str,
     ) -> AnyResult<Self, AnyError> {
         let mut xml_document = Self::get_xml_document(&office_document, &file_name)?;
-        let relationships =
-            Self::load_relations(&mut xml_document).context("Failed to decode Relations")?;
+        let relationships = match Self::load_relations(&mut xml_document) {
+            Ok(relationships) => relationships,
+            Err(error) => {
+                // Release the part so that it stays as it was in the source
+                if let Some(office_document) = office_document.upgrade() {
+                    office_document
+                        .try_borrow_mut()
+                        .context("Failed to Pull Open XML Handle")?
+                        .discard_xml_document(file_name);
+                }
+                return Err(error).context("Failed to decode Relations");
+            }
+        };
         Ok(Self {
             office_document,
             xml_document,
@@ -126,6 +137,14 @@ impl RelationsPart {
         Ok(relationships)
     }
 
+    /// Get the path of relationship part that belong to the file path
+    pub(crate) fn get_relation_path(file_path: &str) -> String {
+        match file_path.rsplit_once('/') {
+            Some((directory, file_name)) => format!("{}/_rels/{}.rels", directory, file_name),
+            None => format!("_rels/{}.rels", file_path),
+        }
+    }
+
     pub(crate) fn get_relative_path(&self) -> AnyResult<String, AnyError> {
         let rels_position = self
             .file_path
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 186df49..059cf61 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -249,10 +249,7 @@ impl XmlDocumentPart for WorkbookPart {
                 let workbook_relationship_part = Rc::new(RefCell::new(
                     RelationsPart::new(
                         office_document.clone(),
-                        &format!(
-                            "{}/_rels/workbook.xml.rels",
-                            &file_name[..file_name.rfind("/").unwrap()]
-                        ),
+                        &RelationsPart::get_relation_path(&file_name),
                     )
                     .context("Creating Relation ship part for workbook failed.")?,
                 ));
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 0836483..18955c0 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -112,6 +112,13 @@ impl Default for WorkSheetViews {
     }
 }
 
+type WorkSheetContent = (
+    Option<VecDeque<ColumnProperties>>,
+    Option<BTreeMap<u32, RowData>>,
+    WorkSheetViews,
+    Dimension,
+);
+
 #[derive(Debug)]
 pub struct WorkSheet {
     office_document: Weak<RefCell<OfficeDocument>>,
@@ -227,21 +234,21 @@ impl WorkSheet {
         )
         .context("Failed to pull calc chain file name")?;
         let xml_document = Self::get_xml_document(&office_document, &file_path)?;
-        let sheet_relationship_part = Rc::new(RefCell::new(
-            RelationsPart::new(
-                office_document.clone(),
-                &format!(
-                    "{}/_rels/{}.rels",
-                    &file_path[..file_path.rfind("/").unwrap()],
-                    file_path.rsplit("/").next().unwrap()
-                ),
-            )
-            .context("Creating Relation ship part for workbook failed.")?,
-        ));
-        let (column_collection, sheet_data, sheet_views, dimension) = log_elapsed!(
-            || { Self::initialize_worksheet(&xml_document).context("Failed to open Worksheet") },
-            "Worksheet Initialize Time"
-        )?;
+        let loaded_content = Self::load_content(&office_document, &xml_document, &file_path);
+        let (sheet_relationship_part, (column_collection, sheet_data, sheet_views, dimension)) =
+            match loaded_content {
+                Ok(loaded_content) => loaded_content,
+                Err(error) => {
+                    // Release the part so that it stays as it was in the source
+                    if let Some(office_document) = office_document.upgrade() {
+                        office_document
+                            .try_borrow_mut()
+                            .context("Failed to pull office document")?
+                            .discard_xml_document(&file_path);
+                    }
+                    return Err(error);
+                }
+            };
         Ok(Self {
             office_document,
             xml_document,
@@ -258,17 +265,29 @@ impl WorkSheet {
         })
     }
 
+    fn load_content(
+        office_document: &Weak<RefCell<OfficeDocument>>,
+        xml_document: &Weak<RefCell<XmlDocument>>,
+        file_path: &str,
+    ) -> AnyResult<(Rc<RefCell<RelationsPart>>, WorkSheetContent), AnyError> {
+        let worksheet_content = log_elapsed!(
+            || { Self::initialize_worksheet(xml_document).context("Failed to open Worksheet") },
+            "Worksheet Initialize Time"
+        )?;
+        let sheet_relationship_part = RelationsPart::new(
+            office_document.clone(),
+            &RelationsPart::get_relation_path(file_path),
+        )
+        .context("Creating Relation ship part for workbook failed.")?;
+        Ok((
+            Rc::new(RefCell::new(sheet_relationship_part)),
+            worksheet_content,
+        ))
+    }
+
     fn initialize_worksheet(
         xml_document: &Weak<RefCell<XmlDocument>>,
-    ) -> AnyResult<
-        (
-            Option<VecDeque<ColumnProperties>>,
-            Option<BTreeMap<u32, RowData>>,
-            WorkSheetViews,
-            Dimension,
-        ),
-        AnyError,
-    > {
+    ) -> AnyResult<WorkSheetContent, AnyError> {
         if let Some(xml_document) = xml_document.upgrade() {
             let mut xml_doc_mut = xml_document
                 .try_borrow_mut()
@@ -1371,10 +1390,11 @@ impl WorkSheet {
                 .delete_relationship_mut(&self.file_path);
         }
         if let Some(xml_tree) = self.office_document.upgrade() {
-            xml_tree
+            let mut office_document = xml_tree
                 .try_borrow_mut()
-                .context("Failed to Pull XML Handle")?
-                .delete_document_mut(&self.file_path);
+                .context("Failed to Pull XML Handle")?;
+            office_document.delete_document_mut(&self.file_path);
+            office_document.delete_document_mut(&RelationsPart::get_relation_path(&self.file_path));
         }
         self.flush().context("Failed to flush the worksheet")?;
         Ok(())
-- 
2.43.0


From 6a1b912b132c48e61a36c3ba9bd00b1cde5030d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 05/30] fix: resolve relationship targets before comparing or
 using them

Relative targets were never matched on delete, so the relationship stayed behind,
and dotted or differently cased targets were taken for missing parts.
---
 rs/src/files/office_document.rs               | 16 +++++
 rs/src/global/global_2007/parts/relations.rs  | 72 ++++++++++++-------
 .../spreadsheet_2007/parts/worksheet.rs       |  7 +-
 3 files changed, 67 insertions(+), 28 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index ad04f34..62ae673 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -49,10 +49,26 @@ impl OfficeDocument {
     }
 
     pub(crate) fn check_file_exist(&self, file_path: String) -> bool {
+        let file_path = self.get_existing_path(file_path);
         self.archive_collection.contains_key(&file_path)
             || self.xml_document_collection.contains_key(&file_path)
     }
 
+    /// Get the file path in the case used by the package if the part exist
+    pub(crate) fn get_existing_path(&self, file_path: String) -> String {
+        if self.archive_collection.contains_key(&file_path)
+            || self.xml_document_collection.contains_key(&file_path)
+        {
+            return file_path;
+        }
+        self.archive_collection
+            .keys()
+            .chain(self.xml_document_collection.keys())
+            .find(|key| key.eq_ignore_ascii_case(&file_path))
+            .cloned()
+            .unwrap_or(file_path)
+    }
+
     pub(crate) fn delete_document_mut(&mut self, file_name: &str) {
         self.xml_document_collection.remove(file_name);
         self.archive_collection.remove(file_name);
diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index 561ae31..54d9fb5 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -157,6 +157,33 @@ impl RelationsPart {
         }
     }
 
+    /// Resolve the target to path of the part in the package
+    fn get_target_path(&self, target: &str) -> AnyResult<String, AnyError> {
+        let full_path = if target.starts_with('/') {
+            target.to_string()
+        } else {
+            format!("{}{}", self.get_relative_path()?, target)
+        };
+        let mut segments: Vec<&str> = Vec::new();
+        for segment in full_path.split('/') {
+            match segment {
+                "" | "." => {}
+                ".." => {
+                    segments.pop();
+                }
+                _ => segments.push(segment),
+            }
+        }
+        let part_path = segments.join("/");
+        // Part names are equal without considering the case
+        if let Some(office_document) = self.office_document.upgrade() {
+            if let Ok(office_document) = office_document.try_borrow() {
+                return Ok(office_document.get_existing_path(part_path));
+            }
+        }
+        Ok(part_path)
+    }
+
     pub(crate) fn get_target_by_id(
         &self,
         relationship_id: &str,
@@ -166,15 +193,10 @@ impl RelationsPart {
             .iter()
             .find(|item| item.0 == relationship_id)
         {
-            let file_path = record.1.clone();
-            let relative_path = self
-                .get_relative_path()
-                .context("Get Relative Path for Part File")?;
-            if file_path.starts_with("/") {
-                Ok(Some(file_path.strip_prefix("/").unwrap().to_string()))
-            } else {
-                Ok(Some(format!("{}{}", relative_path, file_path)))
-            }
+            Ok(Some(
+                self.get_target_path(&record.1)
+                    .context("Get Path for Part File")?,
+            ))
         } else {
             Ok(None)
         }
@@ -194,15 +216,8 @@ impl RelationsPart {
             .iter()
             .find(|item| item.2 == content_type)
         {
-            let file_path = relationship.1.clone();
-            let relative_path = self
-                .get_relative_path()
-                .context("Get Relative Path for Part File")?;
-            if file_path.starts_with("/") {
-                Ok(file_path.strip_prefix("/").unwrap().to_string())
-            } else {
-                Ok(format!("{}{}", relative_path, file_path))
-            }
+            self.get_target_path(&relationship.1)
+                .context("Get Path for Part File")
         } else {
             self.set_new_relationship_mut(content, file_path.clone(), file_name.clone())
                 .context("Setting New Theme Relationship Failed.")?;
@@ -291,13 +306,18 @@ impl RelationsPart {
 
     /// Delete the target file path
     pub(crate) fn delete_relationship_mut(&mut self, file_path: &str) {
-        self.relationships.retain(|item| {
-            item.1
-                != if file_path.starts_with("/") {
-                    file_path.to_string()
-                } else {
-                    format!("/{}", file_path)
-                }
-        })
+        let file_path = file_path.trim_start_matches('/');
+        let delete_ids = self
+            .relationships
+            .iter()
+            .filter(|item| item.3.as_deref() != Some("External"))
+            .filter(|item| {
+                self.get_target_path(&item.1)
+                    .is_ok_and(|target| target == file_path)
+            })
+            .map(|item| item.0.to_string())
+            .collect::<Vec<String>>();
+        self.relationships
+            .retain(|item| !delete_ids.contains(&item.0))
     }
 }
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 18955c0..be73150 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1092,14 +1092,17 @@ impl WorkSheet {
                         .try_borrow()
                         .context("Failed to Borrow Document")?;
                     loop {
-                        if document.check_file_exist(format!(
+                        let file_path = format!(
                             "{}{}/{}{}.{}",
                             relative_path,
                             worksheet_content.default_path,
                             worksheet_content.default_name,
                             sheet_count,
                             worksheet_content.extension
-                        )) {
+                        );
+                        if document.check_file_exist(RelationsPart::get_relation_path(&file_path))
+                            || document.check_file_exist(file_path)
+                        {
                             sheet_count += 1;
                         } else {
                             break;
-- 
2.43.0


From f0f2adf0315a2938004028bb72486a77ca702dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 06/30] fix: write one content type per extension and part

Parts whose extension has no default got an empty Default entry, a default that
differs from the library's own was written twice and entries were compared with
case, all of which made the package invalid.
---
 rs/src/files/office_document.rs               | 26 +++++++----
 .../global/global_2007/parts/content_types.rs | 46 +++++++++++++------
 2 files changed, 50 insertions(+), 22 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index 62ae673..1c2b63a 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -6,7 +6,7 @@ use crate::{
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
-    collections::{HashMap, HashSet},
+    collections::{BTreeMap, HashMap},
     fs::{metadata, remove_file, File},
     io::{Cursor, Read, Write},
     rc::{Rc, Weak},
@@ -199,7 +199,8 @@ impl OfficeDocument {
 
     /// Save the database content into file archive
     fn save_database_into_archive(&self) -> AnyResult<Vec<u8>, AnyError> {
-        let mut extensions: Vec<(String, String)> = Vec::new();
+        // Key : Extension -> Value : (Content Type, Is mandatory for a part without override)
+        let mut extensions: BTreeMap<String, (String, bool)> = BTreeMap::new();
         let mut overrides: Vec<(String, String)> = Vec::new();
         let mut buffer = Cursor::new(Vec::new());
         let mut zip_writer: ZipWriter<&mut Cursor<Vec<u8>>> = ZipWriter::new(&mut buffer);
@@ -219,7 +220,15 @@ impl OfficeDocument {
                 ),
             ) in self.archive_collection.to_owned()
             {
-                extensions.push((file_extension, extension_type));
+                // One content type per extension, the one parts without override depend on
+                let is_mandatory = content_type.is_none();
+                if !file_extension.is_empty()
+                    && extensions
+                        .get(&file_extension)
+                        .map_or(true, |item| is_mandatory && !item.1)
+                {
+                    extensions.insert(file_extension, (extension_type, is_mandatory));
+                }
                 if let Some(content_type) = content_type {
                     overrides.push((format!("/{}", file_name), content_type));
                 }
@@ -242,8 +251,7 @@ impl OfficeDocument {
         let content_type_file = ContentTypesPart::create_xml_file(
             extensions
                 .into_iter()
-                .collect::<HashSet<_>>()
-                .into_iter()
+                .map(|(extension, (extension_type, _))| (extension, extension_type))
                 .collect::<Vec<_>>(),
             overrides,
         )
@@ -285,7 +293,7 @@ impl OfficeDocument {
             .context("Failed to uncompress [Content_Types].xml")?;
         let file_names = zip_read
             .file_names()
-            .filter(|name| "[Content_Types].xml" != *name)
+            .filter(|name| "[Content_Types].xml" != *name && !name.ends_with('/'))
             .map(|item| item.to_string())
             .collect::<Vec<_>>();
         let mut content_types_part =
@@ -301,9 +309,11 @@ impl OfficeDocument {
             let f_extension = file_name.rsplit(".").next();
             if let Some(f_extension) = f_extension {
                 if let Some(extensions) = extension_collection.clone() {
-                    let item = extensions.iter().find(|item| item.0 == f_extension);
+                    let item = extensions
+                        .iter()
+                        .find(|item| item.0.eq_ignore_ascii_case(f_extension));
                     if let Some(extension) = item {
-                        file_extension = extension.0.to_string();
+                        file_extension = extension.0.to_lowercase();
                         extension_type = extension.1.to_string();
                     }
                 }
diff --git a/rs/src/global/global_2007/parts/content_types.rs b/rs/src/global/global_2007/parts/content_types.rs
index 707cb4a..a057d21 100644
--- a/rs/src/global/global_2007/parts/content_types.rs
+++ b/rs/src/global/global_2007/parts/content_types.rs
@@ -9,6 +9,8 @@ use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 #[derive(Debug)]
 pub(crate) struct ContentTypesPart {
     xml_document: XmlDocument,
+    /// Key : Part name in lower case -> Value : Content Type
+    overrides: Option<HashMap<String, String>>,
 }
 
 impl ContentTypesPart {
@@ -16,7 +18,10 @@ impl ContentTypesPart {
         let xml_document =
             XmlSerializer::vec_to_xml_doc_tree(xml_file_content, "Default Content Type")
                 .context("Decoding Content Type Failed")?;
-        Ok(Self { xml_document })
+        Ok(Self {
+            xml_document,
+            overrides: None,
+        })
     }
     pub(crate) fn get_extensions(&mut self) -> AnyResult<Option<Vec<(String, String)>>, AnyError> {
         let mut elements: Vec<(String, String)> = Vec::new();
@@ -47,21 +52,34 @@ impl ContentTypesPart {
         &mut self,
         file_name: &str,
     ) -> AnyResult<Option<String>, AnyError> {
-        if let Some(mut find_ids) = self.xml_document.get_element_ids_by_attribute(
-            "PartName",
-            &format!("/{}", file_name),
-            None,
-        ) {
-            if let Some(id) = find_ids.pop() {
-                if let Some(element) = self.xml_document.pop_element_mut(&id) {
-                    if let Some(attributes) = element.get_attribute() {
-                        let res = attributes.get("ContentType").unwrap().to_string();
-                        return Ok(Some(res));
-                    }
-                }
+        let part_name = format!("/{}", file_name);
+        if self.overrides.is_none() {
+            let mut overrides = HashMap::new();
+            for override_element in self
+                .xml_document
+                .pop_elements_by_tag_mut("Override", None)
+                .unwrap_or_default()
+            {
+                let attributes = override_element
+                    .get_attribute()
+                    .ok_or(anyhow!("Element Attribute not Found"))?;
+                overrides.insert(
+                    attributes
+                        .get("PartName")
+                        .ok_or(anyhow!("content type override attribute missing"))?
+                        .to_lowercase(),
+                    attributes
+                        .get("ContentType")
+                        .ok_or(anyhow!("content type override attribute missing"))?
+                        .to_string(),
+                );
             }
+            self.overrides = Some(overrides);
         }
-        Ok(None)
+        Ok(self
+            .overrides
+            .as_ref()
+            .and_then(|overrides| overrides.get(&part_name.to_lowercase()).cloned()))
     }
 
     pub(crate) fn create_xml_file(
-- 
2.43.0


From 8962af0bb8dbd0d75a7956785628a609a105ace4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 07/30] fix: replace the save target only after the new file is
 complete

The previous file was removed before the new one was written, so a failed save
lost it. A sheet still open when saving was written without its data; that is
an error now.
---
 rs/src/files/office_document.rs | 40 +++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index 1c2b63a..edf5701 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -7,10 +7,12 @@ use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
     collections::{BTreeMap, HashMap},
-    fs::{metadata, remove_file, File},
+    fs::{remove_file, rename, File},
     io::{Cursor, Read, Write},
+    path::Path,
     rc::{Rc, Weak},
 };
+use uuid::Uuid;
 use zip::{write::SimpleFileOptions, ZipArchive, ZipWriter};
 
 #[derive(Debug)]
@@ -176,25 +178,35 @@ impl OfficeDocument {
 
     /// Save Current Document to final result
     pub(crate) fn save_as(&mut self, file_path: &str) -> AnyResult<(), AnyError> {
-        // Save the live content update object to database
-        let keys = self
-            .xml_document_collection
-            .keys()
-            .cloned()
-            .collect::<Vec<String>>();
-        for key_file_path in keys {
-            self.close_xml_document(&key_file_path)
-                .context(" Saving open object content failed")?;
+        // The content of an open part is with its handle and would be lost
+        if let Some(open_file_path) = self.xml_document_collection.keys().min() {
+            return Err(anyhow!(
+                "Please close the open object before saving. {}",
+                open_file_path
+            ));
         }
         let file_content: Vec<u8> = self
             .save_database_into_archive()
             .context("Save Archive Data into Database")?;
-        if metadata(file_path).is_ok() {
-            remove_file(file_path).map_err(|e| anyhow!("Remove Save File Target Failed. {}", e))?;
+        // Replace the target only after the full content is on disk
+        let target_path = Path::new(file_path);
+        if target_path.file_name().is_none() {
+            return Err(anyhow!("Save File Target is not a file path"));
         }
+        let temp_path = target_path.with_file_name(format!(".{}.tmp", Uuid::new_v4()));
+        let result = Self::write_file(&temp_path, &file_content)
+            .and_then(|_| rename(&temp_path, target_path).context("Replace Save File Failed"));
+        if result.is_err() {
+            let _ = remove_file(&temp_path);
+        }
+        result
+    }
+
+    fn write_file(file_path: &Path, file_content: &[u8]) -> AnyResult<(), AnyError> {
         let mut file = File::create(file_path).context("Create Save File Failed")?;
-        file.write_all(&file_content)
-            .context("Save File Write Failed")
+        file.write_all(file_content)
+            .context("Save File Write Failed")?;
+        file.sync_all().context("Save File Write Failed")
     }
 
     /// Save the database content into file archive
-- 
2.43.0


From 24851a2d5099a1e76318143a281cc1a23cce58c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 08/30] fix: keep the entries of the shared string table

Rich text entries became empty, empty entries were dropped so that all later
indexes shifted, and text with outer white space lacked xml:space. The lookup is
a map now as the list was searched for each cell.
---
 rs/src/files/xml/xml_tree.rs                  |  12 +-
 .../spreadsheet_2007/parts/worksheet.rs       |   2 +-
 .../spreadsheet_2007/services/share_string.rs | 114 ++++++++++--------
 3 files changed, 73 insertions(+), 55 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index d0d9892..3c35ab7 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -64,7 +64,7 @@ impl XmlDocument {
         element_ids
     }
 
-    fn get_element_ids_by_tag(
+    pub(crate) fn get_element_ids_by_tag(
         &self,
         filter_tag: &str,
         parent_id: Option<&usize>,
@@ -558,6 +558,16 @@ impl XmlElement {
         self
     }
 
+    /// Set text of which the consumer should not remove the outer white space
+    pub(crate) fn set_preserved_value_mut(&mut self, text: String) -> &mut Self {
+        if text.starts_with(char::is_whitespace) || text.ends_with(char::is_whitespace) {
+            let mut attributes = self.attributes.take().unwrap_or_default();
+            attributes.insert("xml:space".to_string(), "preserve".to_string());
+            self.attributes = Some(attributes);
+        }
+        self.set_value_mut(text)
+    }
+
     pub(crate) fn clear_value_mut(&mut self) {
         self.value = None;
     }
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index be73150..1925eb0 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -607,7 +607,7 @@ impl WorkSheet {
                                 let text_element = xml_doc_mut
                                     .append_child_mut("t", Some(&inline_string_id))
                                     .context("Failed To insert Text Value to inline string")?;
-                                text_element.set_value_mut(
+                                text_element.set_preserved_value_mut(
                                     if let Some(value) = cell_record.value {
                                         value
                                     } else {
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
index 2438b36..b290406 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
@@ -7,18 +7,19 @@ use crate::{
     global_2007::traits::XmlDocumentPart,
 };
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
-use std::{
-    cell::RefCell,
-    collections::{HashMap, HashSet},
-    rc::Weak,
-};
+use std::{cell::RefCell, collections::HashMap, rc::Weak};
 
 #[derive(Debug)]
 pub struct ShareStringPart {
     office_document: Weak<RefCell<OfficeDocument>>,
     parent_relationship_part: Weak<RefCell<RelationsPart>>,
     xml_document: Weak<RefCell<XmlDocument>>,
-    share_string_collection: Vec<String>,
+    /// Key : Plain text -> Value : Position in the table
+    share_string_collection: HashMap<String, usize>,
+    /// Text to be added to the table after the entries of the source
+    new_string_collection: Vec<String>,
+    /// Number of entries loaded from source
+    source_count: usize,
     file_path: String,
 }
 
@@ -36,30 +37,13 @@ impl XmlDocumentPartCommon for ShareStringPart {
         log_elapsed!(
             || {
                 if let Some(office_doc_ref) = self.office_document.upgrade() {
-                    if self.share_string_collection.len() > 0 {
+                    let string_count = self.source_count + self.new_string_collection.len();
+                    if string_count > 0 {
                         if let Some(xml_document) = self.xml_document.upgrade() {
                             let mut xml_doc_mut = xml_document
                                 .try_borrow_mut()
                                 .context("Failed to Pull Doc Reference")?;
-                            // Update count & uniqueCount in root
-                            if let Some(root) = xml_doc_mut.get_root_mut() {
-                                if let Some(attributes) = root.get_attribute_mut() {
-                                    attributes.insert(
-                                        "count".to_string(),
-                                        self.share_string_collection.len().to_string(),
-                                    );
-                                    attributes.insert(
-                                        "uniqueCount".to_string(),
-                                        self.share_string_collection
-                                            .iter()
-                                            .map(|s| s.to_string())
-                                            .collect::<HashSet<String>>()
-                                            .len()
-                                            .to_string(),
-                                    );
-                                }
-                            }
-                            for string in self.share_string_collection.to_owned() {
+                            for string in self.new_string_collection.drain(..) {
                                 let parent_id = xml_doc_mut
                                     .append_child_mut("si", None)
                                     .context("Failed to Add Child")?
@@ -67,7 +51,19 @@ impl XmlDocumentPartCommon for ShareStringPart {
                                 xml_doc_mut
                                     .append_child_mut("t", Some(&parent_id))
                                     .context("Creating Share String Child Failed")?
-                                    .set_value_mut(string);
+                                    .set_preserved_value_mut(string);
+                            }
+                            if let Some(root) = xml_doc_mut.get_root_mut() {
+                                // The optional reference count is not tracked, only the entries are
+                                if let Some(attributes) = root.get_attribute_mut() {
+                                    attributes.remove("count");
+                                    attributes.insert(
+                                        "uniqueCount".to_string(),
+                                        string_count.to_string(),
+                                    );
+                                }
+                                root.order_child_mut(&["si", "extLst"])
+                                    .context("Failed Reorder the element child's")?;
                             }
                         }
                         office_doc_ref
@@ -132,13 +128,16 @@ impl XmlDocumentPart for ShareStringPart {
             .context("Failed to pull share string file name")?
             .to_string();
         let mut xml_document = Self::get_xml_document(&office_document, &file_name)?;
-        let share_string_collection = Self::load_content_to_database(&mut xml_document)
-            .context("Load Share String To DB Failed")?;
+        let (share_string_collection, source_count) =
+            Self::load_content_to_database(&mut xml_document)
+                .context("Load Share String To DB Failed")?;
         Ok(Self {
             office_document,
             parent_relationship_part,
             xml_document,
             share_string_collection,
+            new_string_collection: Vec::new(),
+            source_count,
             file_path: file_name,
         })
     }
@@ -165,42 +164,51 @@ impl ShareStringPart {
         }
     }
 
+    /// Index the entries of the table, the entries itself stay in the document
     fn load_content_to_database(
         xml_document: &mut Weak<RefCell<XmlDocument>>,
-    ) -> AnyResult<Vec<String>, AnyError> {
-        let mut share_string_collection = Vec::new();
+    ) -> AnyResult<(HashMap<String, usize>, usize), AnyError> {
+        let mut share_string_collection = HashMap::new();
+        let mut source_count = 0;
         if let Some(xml_document) = xml_document.upgrade() {
-            let mut xml_doc_mut = xml_document
-                .try_borrow_mut()
-                .context("xml doc borrow failed")?;
-            if let Some(elements) = xml_doc_mut.pop_elements_by_tag_mut("si", None) {
-                for element in elements {
-                    if let Some((child_id, _)) = element.pop_child_mut() {
-                        if let Some(text_element) = xml_doc_mut.pop_element_mut(&child_id) {
-                            let value = text_element.get_value().clone().unwrap_or("".to_string());
-                            share_string_collection.push(value);
+            let xml_doc = xml_document.try_borrow().context("xml doc borrow failed")?;
+            for element_id in xml_doc
+                .get_element_ids_by_tag("si", None)
+                .unwrap_or_default()
+            {
+                if let Some(element) = xml_doc.get_element(&element_id) {
+                    // Only an entry with just a text is plain
+                    if element.get_child_count() == 1 {
+                        if let Some(text_element) = element
+                            .get_first_child_id()
+                            .and_then(|child_id| xml_doc.get_element(&child_id))
+                        {
+                            let text = text_element.get_value().clone().unwrap_or_default();
+                            let is_preserved = text.trim() == text
+                                || text_element
+                                    .get_attribute()
+                                    .is_some_and(|item| item.contains_key("xml:space"));
+                            if text_element.get_tag() == "t" && is_preserved {
+                                share_string_collection.entry(text).or_insert(source_count);
+                            }
                         }
                     }
                 }
+                source_count += 1;
             }
         }
-        Ok(share_string_collection)
+        Ok((share_string_collection, source_count))
     }
 }
 
 impl ShareStringPart {
     pub(crate) fn get_string_id_mut(&mut self, value: String) -> AnyResult<String, AnyError> {
-        Ok(
-            if let Some(position) = self
-                .share_string_collection
-                .iter()
-                .position(|predicate| predicate == &value)
-            {
-                position.to_string()
-            } else {
-                self.share_string_collection.push(value);
-                (self.share_string_collection.len() - 1).to_string()
-            },
-        )
+        if let Some(position) = self.share_string_collection.get(&value) {
+            return Ok(position.to_string());
+        }
+        let position = self.source_count + self.new_string_collection.len();
+        self.new_string_collection.push(value.clone());
+        self.share_string_collection.insert(value, position);
+        Ok(position.to_string())
     }
 }
-- 
2.43.0


From 58f728d879e9eb28eb780c97fd202f89fc32593c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:49 +0000
Subject: [PATCH 09/30] fix: keep existing style records and add the requested
 ones exactly

Loading fonts, fills, borders, formats and cell formats into lossy records and
writing all of them back changed formatting of cells that were never touched.
The records now stay in the style sheet, new ones are appended once.
---
 rs/src/files/xml/xml_tree.rs                  |    4 +
 .../spreadsheet_2007/models/style.rs          |  150 --
 .../spreadsheet_2007/services/style.rs        | 1563 +++++------------
 3 files changed, 449 insertions(+), 1268 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 3c35ab7..d331bfe 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -452,6 +452,10 @@ impl XmlElement {
         }
     }
 
+    pub(crate) fn get_child_ids(&self) -> Vec<usize> {
+        self.children.borrow().iter().map(|item| item.id).collect()
+    }
+
     pub(crate) fn get_parent_id(&self) -> usize {
         self.parent_id
     }
diff --git a/rs/src/spreadsheet/spreadsheet_2007/models/style.rs b/rs/src/spreadsheet/spreadsheet_2007/models/style.rs
index b566931..f18ef77 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/models/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/models/style.rs
@@ -127,30 +127,6 @@ impl Enum<NumberFormatValues> for NumberFormatValues {
     }
 }
 
-#[derive(Debug, Clone, Hash, Deserialize, Serialize)]
-pub(crate) enum FontSchemeValues {
-    None,
-    Minor,
-    Major,
-}
-
-impl Enum<FontSchemeValues> for FontSchemeValues {
-    fn get_string(input_enum: FontSchemeValues) -> String {
-        match input_enum {
-            FontSchemeValues::Major => "major".to_string(),
-            FontSchemeValues::Minor => "minor".to_string(),
-            FontSchemeValues::None => "none".to_string(),
-        }
-    }
-    fn get_enum(input_string: &str) -> Self {
-        match input_string {
-            "major" => FontSchemeValues::Major,
-            "minor" => FontSchemeValues::Minor,
-            _ => FontSchemeValues::None,
-        }
-    }
-}
-
 #[derive(Debug, Clone, Hash, Deserialize, Serialize)]
 pub enum PatternTypeValues {
     None,
@@ -287,29 +263,6 @@ impl Default for BorderSetting {
     }
 }
 
-#[derive(Debug, Clone, Hash, Deserialize, Serialize)]
-pub(crate) struct BorderStyle {
-    pub(crate) id: u32,
-    pub(crate) bottom: BorderSetting,
-    pub(crate) left: BorderSetting,
-    pub(crate) right: BorderSetting,
-    pub(crate) top: BorderSetting,
-    pub(crate) diagonal: BorderSetting,
-}
-
-impl Default for BorderStyle {
-    fn default() -> Self {
-        Self {
-            id: 0,
-            bottom: Default::default(),
-            left: Default::default(),
-            right: Default::default(),
-            top: Default::default(),
-            diagonal: Default::default(),
-        }
-    }
-}
-
 #[derive(Debug, Clone, Deserialize, Serialize, PartialEq, Hash)]
 pub enum HorizontalAlignmentValues {
     None,
@@ -367,109 +320,6 @@ impl Enum<VerticalAlignmentValues> for VerticalAlignmentValues {
     }
 }
 
-#[derive(Debug, Hash)]
-pub(crate) struct NumberFormat {
-    pub(crate) format_id: usize,
-    pub(crate) format_type: NumberFormatValues,
-    pub(crate) format_code: String,
-}
-
-impl Default for NumberFormat {
-    fn default() -> Self {
-        Self {
-            format_id: 0,
-            format_type: NumberFormatValues::General,
-            format_code: NumberFormatValues::get_string(NumberFormatValues::General),
-        }
-    }
-}
-#[derive(Debug, Clone, Hash, Deserialize, Serialize)]
-pub(crate) struct FontStyle {
-    pub(crate) name: String,
-    pub(crate) size: u8,
-    pub(crate) color: ColorSetting,
-    pub(crate) family: u32,
-    pub(crate) font_scheme: FontSchemeValues,
-    pub(crate) is_bold: bool,
-    pub(crate) is_double_underline: bool,
-    pub(crate) is_italic: bool,
-    pub(crate) is_underline: bool,
-}
-
-impl Default for FontStyle {
-    fn default() -> Self {
-        Self {
-            name: "Calibri".to_string(),
-            size: 11,
-            color: ColorSetting {
-                value: "1".to_string(),
-                ..Default::default()
-            },
-            family: 2,
-            font_scheme: FontSchemeValues::None,
-            is_bold: false,
-            is_double_underline: false,
-            is_italic: false,
-            is_underline: false,
-        }
-    }
-}
-#[derive(Debug, Clone, Hash, Deserialize, Serialize)]
-pub(crate) struct CellXfs {
-    pub(crate) format_id: u16,
-    pub(crate) number_format_id: u16,
-    pub(crate) font_id: u16,
-    pub(crate) fill_id: u16,
-    pub(crate) border_id: u16,
-    pub(crate) apply_font: u8,
-    pub(crate) apply_alignment: u8,
-    pub(crate) apply_fill: u8,
-    pub(crate) apply_border: u8,
-    pub(crate) apply_number_format: u8,
-    pub(crate) apply_protection: u8,
-    pub(crate) is_wrap_text: u8,
-    pub(crate) horizontal_alignment: HorizontalAlignmentValues,
-    pub(crate) vertical_alignment: VerticalAlignmentValues,
-}
-
-impl Default for CellXfs {
-    fn default() -> Self {
-        Self {
-            format_id: 0,
-            number_format_id: 0,
-            font_id: 0,
-            fill_id: 0,
-            border_id: 0,
-            apply_font: 0,
-            apply_alignment: 0,
-            apply_fill: 0,
-            apply_border: 0,
-            apply_number_format: 0,
-            apply_protection: 0,
-            is_wrap_text: 0,
-            horizontal_alignment: HorizontalAlignmentValues::None,
-            vertical_alignment: VerticalAlignmentValues::None,
-        }
-    }
-}
-
-#[derive(Debug, Clone, Hash, Deserialize, Serialize)]
-pub(crate) struct FillStyle {
-    pub(crate) pattern_type: PatternTypeValues,
-    pub(crate) background_color: Option<ColorSetting>,
-    pub(crate) foreground_color: Option<ColorSetting>,
-}
-
-impl Default for FillStyle {
-    fn default() -> Self {
-        Self {
-            background_color: None,
-            foreground_color: None,
-            pattern_type: PatternTypeValues::None,
-        }
-    }
-}
-
 /// Get Column Cell Input Combined for styling
 #[derive(Debug, Hash)]
 pub struct StyleSetting {
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
index c6c63ae..a700540 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/style.rs
@@ -1,41 +1,58 @@
 use crate::{
-    converters::ConverterUtil,
     element_dictionary::EXCEL_TYPE_COLLECTION,
-    files::{OfficeDocument, XmlDocument, XmlElement, XmlSerializer},
+    files::{is_xml_char, OfficeDocument, XmlDocument, XmlSerializer},
     global_2007::{
         parts::RelationsPart,
         traits::{Enum, XmlDocumentPart, XmlDocumentPartCommon},
     },
     log_elapsed,
     spreadsheet_2007::models::{
-        BorderSetting, BorderStyle, BorderStyleValues, CellXfs, ColorSetting,
-        ColorSettingTypeValues, FillStyle, FontSchemeValues, FontStyle, HorizontalAlignmentValues,
-        NumberFormat, NumberFormatValues, PatternTypeValues, StyleId, StyleSetting,
+        BorderSetting, BorderStyleValues, ColorSetting, ColorSettingTypeValues,
+        HorizontalAlignmentValues, NumberFormatValues, PatternTypeValues, StyleId, StyleSetting,
         VerticalAlignmentValues,
     },
 };
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
-use std::{
-    cell::RefCell,
-    collections::{HashMap, VecDeque},
-    hash::{DefaultHasher, Hash, Hasher},
-    rc::Weak,
-};
+use std::{cell::RefCell, collections::HashMap, rc::Weak};
+
+/// Order of the style sheet children as per schema
+const STYLE_CHILD_ORDER: [&str; 11] = [
+    "numFmts",
+    "fonts",
+    "fills",
+    "borders",
+    "cellStyleXfs",
+    "cellXfs",
+    "cellStyles",
+    "dxfs",
+    "tableStyles",
+    "colors",
+    "extLst",
+];
+/// First id that is not reserved for the built-in number formats
+const CUSTOM_NUMBER_FORMAT_START: u32 = 164;
 
 #[derive(Debug)]
 pub struct StylePart {
     office_document: Weak<RefCell<OfficeDocument>>,
     xml_document: Weak<RefCell<XmlDocument>>,
     file_path: String,
-    cache_id: HashMap<u64, u32>,
-    cache_order: VecDeque<u64>,
-    cache_capacity: u8,
-    number_format_collection: Vec<(u64, NumberFormat)>,
-    font_collection: Vec<(u64, FontStyle)>,
-    fill_collection: Vec<(u64, FillStyle)>,
-    border_collection: Vec<(u64, BorderStyle)>,
-    cell_style_xfs_collection: Vec<(u64, CellXfs)>,
-    cell_xfs_collection: Vec<(u64, CellXfs)>,
+    /// Key : Collection tag -> Value : Position of each distinct record of the collection
+    collection_keys: HashMap<&'static str, CollectionKeys>,
+}
+
+#[derive(Debug)]
+struct CollectionKeys {
+    element_id: usize,
+    count: usize,
+    positions: HashMap<String, usize>,
+}
+
+/// Content of one style record
+struct StyleRecord {
+    tag: &'static str,
+    attributes: Vec<(&'static str, String)>,
+    children: Vec<StyleRecord>,
 }
 
 impl Drop for StylePart {
@@ -51,15 +68,6 @@ impl XmlDocumentPartCommon for StylePart {
     {
         log_elapsed!(
             || {
-                log_elapsed!(
-                    || {
-                        {
-                            self.save_content_to_tree_mut()
-                                .context("Style Save Content Failed")
-                        }
-                    },
-                    "Save Tree"
-                )?;
                 if let Some(xml_tree) = self.office_document.upgrade() {
                     log_elapsed!(
                         || {
@@ -101,32 +109,97 @@ impl XmlDocumentPart for StylePart {
         let file_name = Self::get_style_file_name(&parent_relationship_part)
             .context("Failed to pull style file name")?
             .to_string();
-        let mut xml_document = Self::get_xml_document(&office_document, &file_name)?;
-        let (
-            number_format_collection,
-            font_collection,
-            fill_collection,
-            border_collection,
-            cell_style_collection,
-            cell_collection,
-        ) = Self::load_content(&mut xml_document).context("Load Share String To DB Failed")?;
+        let xml_document = Self::get_xml_document(&office_document, &file_name)?;
         Ok(Self {
             office_document,
             xml_document,
             file_path: file_name,
-            cache_id: HashMap::new(),
-            cache_order: VecDeque::new(),
-            cache_capacity: 25,
-            number_format_collection,
-            font_collection,
-            fill_collection,
-            border_collection,
-            cell_style_xfs_collection: cell_style_collection,
-            cell_xfs_collection: cell_collection,
+            collection_keys: HashMap::new(),
         })
     }
 }
 
+// ################################# Style Record ################
+impl StyleRecord {
+    fn new(tag: &'static str) -> Self {
+        Self {
+            tag,
+            attributes: Vec::new(),
+            children: Vec::new(),
+        }
+    }
+
+    fn attribute(mut self, key: &'static str, value: impl ToString) -> Self {
+        self.attributes.push((key, value.to_string()));
+        self
+    }
+
+    fn child(mut self, child: StyleRecord) -> Self {
+        self.children.push(child);
+        self
+    }
+
+    fn color(tag: &'static str, color: ColorSetting) -> Self {
+        let key = match color.color_setting_type {
+            ColorSettingTypeValues::Theme => "theme",
+            ColorSettingTypeValues::Rgb => "rgb",
+            ColorSettingTypeValues::Indexed => "indexed",
+        };
+        StyleRecord::new(tag).attribute(key, color.value)
+    }
+
+    fn border(tag: &'static str, setting: BorderSetting) -> Self {
+        let mut record = StyleRecord::new(tag);
+        if setting.style != BorderStyleValues::None {
+            record = record.attribute("style", BorderStyleValues::get_string(setting.style));
+            if let Some(color) = setting.border_color {
+                record = record.child(StyleRecord::color("color", color));
+            }
+        }
+        record
+    }
+
+    /// Text that is identical only for records of same content
+    fn get_key(&self) -> String {
+        let mut attributes = self
+            .attributes
+            .iter()
+            .map(|(key, value)| (*key, value.as_str()))
+            .collect::<Vec<(&str, &str)>>();
+        StylePart::build_key(
+            self.tag,
+            &mut attributes,
+            None,
+            self.children.iter().map(|item| item.get_key()),
+        )
+    }
+
+    fn append_to_tree(
+        self,
+        xml_document: &mut XmlDocument,
+        parent_id: &usize,
+    ) -> AnyResult<(), AnyError> {
+        let element = xml_document
+            .append_child_mut(self.tag, Some(parent_id))
+            .context("Create Style Record Failed")?;
+        if !self.attributes.is_empty() {
+            element
+                .set_attribute_mut(
+                    self.attributes
+                        .into_iter()
+                        .map(|(key, value)| (key.to_string(), value))
+                        .collect(),
+                )
+                .context("Set Style Record Attribute Failed")?;
+        }
+        let element_id = element.get_id();
+        for child in self.children {
+            child.append_to_tree(xml_document, &element_id)?;
+        }
+        Ok(())
+    }
+}
+
 // ################################# Load / Save Functions ################
 impl StylePart {
     fn get_style_file_name(
@@ -148,1116 +221,370 @@ impl StylePart {
             Err(anyhow!("Failed to upgrade relation part"))
         }
     }
+    fn build_key(
+        tag: &str,
+        attributes: &mut Vec<(&str, &str)>,
+        value: Option<&str>,
+        children: impl Iterator<Item = String>,
+    ) -> String {
+        attributes.sort();
+        format!(
+            "{}{:?}{:?}[{}]",
+            tag,
+            attributes,
+            value,
+            children.collect::<Vec<String>>().join(",")
+        )
+    }
 
-    /// Load existing file style to database
-    fn load_content(
-        xml_document: &mut Weak<RefCell<XmlDocument>>,
-    ) -> AnyResult<
-        (
-            Vec<(u64, NumberFormat)>,
-            Vec<(u64, FontStyle)>,
-            Vec<(u64, FillStyle)>,
-            Vec<(u64, BorderStyle)>,
-            Vec<(u64, CellXfs)>,
-            Vec<(u64, CellXfs)>,
-        ),
-        AnyError,
-    > {
-        let mut num_format_records = Vec::new();
-        let mut font_records = Vec::new();
-        let mut fill_records = Vec::new();
-        let mut border_records = Vec::new();
-        let mut style_collection = Vec::new();
-        let mut xfs_collection = Vec::new();
-        if let Some(xml_document) = xml_document.upgrade() {
-            let mut xml_doc_mut = xml_document
-                .try_borrow_mut()
-                .context("xml doc borrow failed")?;
-            // Load Number Format Region
-            if let Some(mut number_formats_vec) =
-                xml_doc_mut.pop_elements_by_tag_mut("numFmts", None)
-            {
-                if let Some(number_formats) = number_formats_vec.pop() {
-                    // Load Number Format from File if exist
-                    loop {
-                        if let Some((element_id, _)) = number_formats.pop_child_mut() {
-                            let num_fmt = xml_doc_mut
-                                .pop_element_mut(&element_id)
-                                .ok_or(anyhow!("Element not Found Error"))?;
-                            if let Some(attributes) = num_fmt.get_attribute() {
-                                let mut number_format = NumberFormat::default();
-                                number_format.format_id = attributes
-                                    .get("numFmtId")
-                                    .ok_or(anyhow!("numFmtId Attribute Not Found!"))?
-                                    .parse()
-                                    .context("Number format ID parsing Failed")?;
-                                number_format.format_code = attributes
-                                    .get("formatCode")
-                                    .ok_or(anyhow!("formatCode Attribute Not Found!"))?
-                                    .to_string();
-                                let mut hasher = DefaultHasher::new();
-                                number_format.hash(&mut hasher);
-                                num_format_records.push((hasher.finish(), number_format));
-                            }
-                        } else {
-                            break;
-                        }
-                    }
-                }
-            }
-            if let Some(mut fonts_vec) = xml_doc_mut.pop_elements_by_tag_mut("fonts", None) {
-                if let Some(fonts) = fonts_vec.pop() {
-                    // fonts
-                    loop {
-                        // Loop every font element
-                        if let Some((font_id, _)) = fonts.pop_child_mut() {
-                            // font
-                            let font = xml_doc_mut
-                                .pop_element_mut(&font_id)
-                                .ok_or(anyhow!("Element not Found Error"))?;
-                            let mut font_style = FontStyle::default();
-                            loop {
-                                if let Some((item_id, _)) = font.pop_child_mut() {
-                                    let current_element = xml_doc_mut
-                                        .pop_element_mut(&item_id)
-                                        .ok_or(anyhow!("Failed to pull child element"))?;
-                                    match current_element.get_tag() {
-                                        "b" => font_style.is_bold = true,
-                                        "u" => {
-                                            if let Some(attributes) =
-                                                current_element.get_attribute()
-                                            {
-                                                if let Some(double) = attributes.get("val") {
-                                                    if double == "double" {
-                                                        font_style.is_double_underline = true;
-                                                    }
-                                                }
-                                            }
-                                            font_style.is_underline = false;
-                                        }
-                                        "i" => font_style.is_italic = false,
-                                        "sz" => {
-                                            if let Some(attributes) =
-                                                current_element.get_attribute()
-                                            {
-                                                if let Some(val) = attributes.get("val") {
-                                                    font_style.size = val
-                                                        .parse()
-                                                        .context("Font Size Parse Failed")?
-                                                }
-                                            }
-                                        }
-                                        "color" => {
-                                            if let Some(attributes) =
-                                                current_element.get_attribute()
-                                            {
-                                                if let Some(theme) = attributes.get("theme") {
-                                                    font_style.color.color_setting_type =
-                                                        ColorSettingTypeValues::Theme;
-                                                    font_style.color.value = theme
-                                                        .parse()
-                                                        .context("Font color theme parse failed")?
-                                                } else if let Some(rgb) = attributes.get("rgb") {
-                                                    font_style.color.color_setting_type =
-                                                        ColorSettingTypeValues::Rgb;
-                                                    let rgb_string = rgb.to_string();
-                                                    font_style.color.value = rgb_string;
-                                                } else if let Some(indexed) =
-                                                    attributes.get("indexed")
-                                                {
-                                                    font_style.color.color_setting_type =
-                                                        ColorSettingTypeValues::Indexed;
-                                                    let indexed_string = indexed.to_string();
-                                                    font_style.color.value = indexed_string;
-                                                }
-                                            }
-                                        }
-                                        "name" => {
-                                            if let Some(attributes) =
-                                                current_element.get_attribute()
-                                            {
-                                                if let Some(val) = attributes.get("val") {
-                                                    font_style.name = val.to_string()
-                                                }
-                                            }
-                                        }
-                                        "family" => {
-                                            if let Some(attributes) =
-                                                current_element.get_attribute()
-                                            {
-                                                if let Some(val) = attributes.get("val") {
-                                                    font_style.family = val
-                                                        .parse()
-                                                        .context("Font Size Parse Failed")?
-                                                }
-                                            }
-                                        }
-                                        "scheme" => {
-                                            if let Some(attributes) =
-                                                current_element.get_attribute()
-                                            {
-                                                if let Some(val) = attributes.get("val") {
-                                                    font_style.font_scheme =
-                                                        FontSchemeValues::get_enum(val)
-                                                }
-                                            }
-                                        }
-                                        _ => {
-                                            return Err(anyhow!("Unknown Font Style Found!"));
-                                        }
-                                    }
-                                } else {
-                                    break;
-                                }
-                            }
-                            let mut hasher = DefaultHasher::new();
-                            font_style.hash(&mut hasher);
-                            font_records.push((hasher.finish(), font_style));
-                        } else {
-                            break;
-                        }
-                    }
-                }
-            }
-            if let Some(mut fills_vec) = xml_doc_mut.pop_elements_by_tag_mut("fills", None) {
-                if let Some(fills) = fills_vec.pop() {
-                    loop {
-                        if let Some((fill_id, _)) = fills.pop_child_mut() {
-                            let current_element = xml_doc_mut
-                                .pop_element_mut(&fill_id)
-                                .ok_or(anyhow!("Failed to pull child element"))?;
-                            let mut fill_style = FillStyle::default();
-                            if let Some((pattern_fill_id, _)) = current_element.pop_child_mut() {
-                                if let Some(pattern_fill) =
-                                    xml_doc_mut.pop_element_mut(&pattern_fill_id)
-                                {
-                                    if let Some(pattern_attributes) = pattern_fill.get_attribute() {
-                                        if let Some(pattern_type) =
-                                            pattern_attributes.get("patternType")
-                                        {
-                                            fill_style.pattern_type =
-                                                PatternTypeValues::get_enum(pattern_type);
-                                            loop {
-                                                if let Some((child_id, _)) =
-                                                    pattern_fill.pop_child_mut()
-                                                {
-                                                    if let Some(pop_child) =
-                                                        xml_doc_mut.pop_element_mut(&child_id)
-                                                    {
-                                                        if let Some(attributes) =
-                                                            pop_child.get_attribute()
-                                                        {
-                                                            match pop_child.get_tag() {
-                                                                "fgColor" => {
-                                                                    if let Some(theme) =
-                                                                        attributes.get("theme")
-                                                                    {
-                                                                        fill_style
-                                                                        .foreground_color =
-                                                                        Some(ColorSetting {
-                                                                            color_setting_type:ColorSettingTypeValues::Theme,
-                                                                            value:theme
-                                                                            .parse()
-                                                                            .context("color theme parse failed")?
-                                                                        });
-                                                                    } else if let Some(rgb) =
-                                                                        attributes.get("rgb")
-                                                                    {
-                                                                        let rgb_string =
-                                                                            rgb.to_string();
-                                                                        fill_style
-                                                                        .foreground_color =
-                                                                        Some(ColorSetting {
-                                                                            color_setting_type:ColorSettingTypeValues::Rgb,
-                                                                            value:rgb_string
-                                                                        });
-                                                                    } else if let Some(indexed) =
-                                                                        attributes.get("indexed")
-                                                                    {
-                                                                        fill_style
-                                                                        .foreground_color =
-                                                                        Some(ColorSetting {
-                                                                            color_setting_type:ColorSettingTypeValues::Indexed,
-                                                                            value:indexed
-                                                                            .parse()
-                                                                            .context("color color index parse failed")?
-                                                                        });
-                                                                    }
-                                                                }
-                                                                "bgColor" => {
-                                                                    if let Some(theme) =
-                                                                        attributes.get("theme")
-                                                                    {
-                                                                        fill_style
-                                                                        .background_color =
-                                                                        Some(ColorSetting {
-                                                                            color_setting_type:ColorSettingTypeValues::Theme,
-                                                                            value:theme
-                                                                            .parse()
-                                                                            .context("color theme parse failed")?
-                                                                        });
-                                                                    } else if let Some(rgb) =
-                                                                        attributes.get("rgb")
-                                                                    {
-                                                                        let rgb_string =
-                                                                            rgb.to_string();
-                                                                        fill_style
-                                                                        .background_color =
-                                                                        Some(ColorSetting {
-                                                                            color_setting_type:ColorSettingTypeValues::Rgb,
-                                                                            value:rgb_string
-                                                                        });
-                                                                    } else if let Some(indexed) =
-                                                                        attributes.get("indexed")
-                                                                    {
-                                                                        fill_style
-                                                                        .background_color =
-                                                                        Some(ColorSetting {
-                                                                            color_setting_type:ColorSettingTypeValues::Indexed,
-                                                                            value:indexed
-                                                                            .parse()
-                                                                            .context("color color index parse failed")?
-                                                                        });
-                                                                    }
-                                                                }
-                                                                _ => {
-                                                                    return Err(anyhow!(
-                                                                    "Unknown Color patter found"
-                                                                ));
-                                                                }
-                                                            }
-                                                        }
-                                                    }
-                                                } else {
-                                                    break;
-                                                }
-                                            }
-                                        }
-                                    }
-                                }
-                            }
-                            let mut hasher = DefaultHasher::new();
-                            fill_style.hash(&mut hasher);
-                            fill_records.push((hasher.finish(), fill_style));
-                        } else {
-                            break;
-                        }
-                    }
-                }
-            }
-            if let Some(mut borders_vec) = xml_doc_mut.pop_elements_by_tag_mut("borders", None) {
-                if let Some(borders) = borders_vec.pop() {
-                    // Loop Each Border Style
-                    loop {
-                        if let Some((border_id, _)) = borders.pop_child_mut() {
-                            if let Some(border) = xml_doc_mut.pop_element_mut(&border_id) {
-                                let mut border_style = BorderStyle::default();
-                                // Loop Details of current border
-                                loop {
-                                    if let Some((border_child_id, _)) = border.pop_child_mut() {
-                                        if let Some(current_element) =
-                                            xml_doc_mut.pop_element_mut(&border_child_id)
-                                        {
-                                            match current_element.get_tag() {
-                                                "left" => {
-                                                    StylePart::deserialize_border_setting(
-                                                        &current_element,
-                                                        &mut border_style.left,
-                                                        &mut xml_doc_mut,
-                                                    )
-                                                    .context("Left Border Decode Failed")?;
-                                                }
-                                                "right" => {
-                                                    StylePart::deserialize_border_setting(
-                                                        &current_element,
-                                                        &mut border_style.right,
-                                                        &mut xml_doc_mut,
-                                                    )
-                                                    .context("Left Border Decode Failed")?;
-                                                }
-                                                "top" => {
-                                                    StylePart::deserialize_border_setting(
-                                                        &current_element,
-                                                        &mut border_style.top,
-                                                        &mut xml_doc_mut,
-                                                    )
-                                                    .context("Left Border Decode Failed")?;
-                                                }
-                                                "bottom" => {
-                                                    StylePart::deserialize_border_setting(
-                                                        &current_element,
-                                                        &mut border_style.bottom,
-                                                        &mut xml_doc_mut,
-                                                    )
-                                                    .context("Left Border Decode Failed")?;
-                                                }
-                                                "diagonal" => {
-                                                    StylePart::deserialize_border_setting(
-                                                        &current_element,
-                                                        &mut border_style.diagonal,
-                                                        &mut xml_doc_mut,
-                                                    )
-                                                    .context("Left Border Decode Failed")?;
-                                                }
-                                                _ => {
-                                                    return Err(anyhow!(
-                                                        "Unknown border style found"
-                                                    ));
-                                                }
-                                            }
-                                        }
-                                    } else {
-                                        break;
-                                    }
-                                }
-                                let mut hasher = DefaultHasher::new();
-                                border_style.hash(&mut hasher);
-                                border_records.push((hasher.finish(), border_style));
-                            }
-                        } else {
-                            break;
-                        }
-                    }
-                }
-            }
-            if let Some(mut cell_style_xfs_vec) =
-                xml_doc_mut.pop_elements_by_tag_mut("cellStyleXfs", None)
-            {
-                if let Some(cell_style_xfs) = cell_style_xfs_vec.pop() {
-                    style_collection =
-                        StylePart::deserialize_cell_style(cell_style_xfs, &mut xml_doc_mut)
-                            .context("Deserializing Cell Style Xfs Failed")?;
-                }
-            }
-            if let Some(mut cell_xfs_vec) = xml_doc_mut.pop_elements_by_tag_mut("cellXfs", None) {
-                if let Some(cell_xfs) = cell_xfs_vec.pop() {
-                    xfs_collection = StylePart::deserialize_cell_style(cell_xfs, &mut xml_doc_mut)
-                        .context("Deserializing Cell Xfs Failed")?;
-                }
-            }
+    /// Get the key of existing style record
+    fn get_element_key(xml_document: &XmlDocument, element_id: &usize, depth: usize) -> String {
+        // No record of this library goes deeper
+        if depth > 4 {
+            return format!("#{}", element_id);
+        }
+        if let Some(element) = xml_document.get_element(element_id) {
+            let mut attributes = element
+                .get_attribute()
+                .map(|item| {
+                    item.iter()
+                        .map(|(key, value)| (key.as_str(), value.as_str()))
+                        .collect::<Vec<(&str, &str)>>()
+                })
+                .unwrap_or_default();
+            StylePart::build_key(
+                element.get_tag(),
+                &mut attributes,
+                element
+                    .get_value()
+                    .as_deref()
+                    .filter(|item| !item.trim().is_empty()),
+                element
+                    .get_child_ids()
+                    .iter()
+                    .map(|child_id| StylePart::get_element_key(xml_document, child_id, depth + 1)),
+            )
+        } else {
+            String::new()
         }
-        Ok((
-            num_format_records,
-            font_records,
-            fill_records,
-            border_records,
-            style_collection,
-            xfs_collection,
-        ))
     }
 
-    /// Save Database record back to XML File
-    fn save_content_to_tree_mut(&mut self) -> AnyResult<(), AnyError> {
-        if let Some(xml_document) = self.xml_document.upgrade() {
-            let mut xml_doc_mut = xml_document
-                .try_borrow_mut()
-                .context("xml doc borrow failed")?;
-            // Create Number Formats Elements
-            {
-                let num_formats = xml_doc_mut
-                    .insert_child_at_mut("numFmts", &0, None)
-                    .context("Create Number Formats Parent Failed.")?;
-                let num_formats_id = num_formats.get_id();
-                let mut attributes = HashMap::new();
-                attributes.insert(
-                    "count".to_string(),
-                    self.number_format_collection.len().to_string(),
-                );
-                num_formats
-                    .set_attribute_mut(attributes)
-                    .context("Updating Number Formats Element Attributes Failed")?;
-                for (_, num_format) in self.number_format_collection.as_slice() {
-                    let num_format_element = xml_doc_mut
-                        .append_child_mut("numFmt", Some(&num_formats_id))
-                        .context("Create Number Format Element Failed")?;
-                    let mut attributes = HashMap::new();
-                    attributes.insert("numFmtId".to_string(), num_format.format_id.to_string());
-                    attributes.insert("formatCode".to_string(), num_format.format_code.clone());
-                    num_format_element
-                        .set_attribute_mut(attributes)
-                        .context("Updating Number Format Element Attributes Failed")?;
-                }
-            }
-            // Create Fonts Elements
-            {
-                let fonts = xml_doc_mut
-                    .insert_children_after_tag_mut("fonts", "numFmts", None)
-                    .context("Create Fonts Parent Failed.")?;
-                let fonts_id = fonts.get_id();
-                let mut attributes = HashMap::new();
-                attributes.insert("count".to_string(), self.font_collection.len().to_string());
-                fonts
-                    .set_attribute_mut(attributes)
-                    .context("Set attribute failed for fonts style")?;
-                for (_, font_style) in self.font_collection.as_slice() {
-                    let font_id = xml_doc_mut
-                        .append_child_mut("font", Some(&fonts_id))
-                        .context("Adding Font to Fonts Failed")?
-                        .get_id();
-                    if font_style.is_bold {
-                        xml_doc_mut
-                            .append_child_mut("b", Some(&font_id))
-                            .context("Create Size Failed")?;
-                    }
-                    if font_style.is_italic {
-                        xml_doc_mut
-                            .append_child_mut("i", Some(&font_id))
-                            .context("Create Size Failed")?;
-                    }
-                    if font_style.is_underline {
-                        xml_doc_mut
-                            .append_child_mut("u", Some(&font_id))
-                            .context("Create Size Failed")?;
-                    }
-                    if font_style.is_double_underline {
-                        let double_underline = xml_doc_mut
-                            .append_child_mut("u", Some(&font_id))
-                            .context("Create Size Failed")?;
-                        let mut double_underline_attributes: HashMap<String, String> =
-                            HashMap::new();
-                        double_underline_attributes.insert("val".to_string(), "double".to_string());
-                        double_underline
-                            .set_attribute_mut(double_underline_attributes)
-                            .context("Setting Size Attribute Failing")?;
-                    }
-                    let size = xml_doc_mut
-                        .append_child_mut("sz", Some(&font_id))
-                        .context("Create Size Failed")?;
-                    let mut size_attributes: HashMap<String, String> = HashMap::new();
-                    size_attributes.insert("val".to_string(), font_style.size.to_string());
-                    size.set_attribute_mut(size_attributes)
-                        .context("Setting Size Attribute Failing")?;
-                    StylePart::add_color_element(
-                        Some(font_style.color.clone()),
-                        &mut xml_doc_mut,
-                        font_id,
-                    )?;
-                    let name = xml_doc_mut
-                        .append_child_mut("name", Some(&font_id))
-                        .context("Create Name Failed")?;
-                    let mut name_attributes: HashMap<String, String> = HashMap::new();
-                    name_attributes.insert("val".to_string(), font_style.name.clone());
-                    name.set_attribute_mut(name_attributes)
-                        .context("Setting name Attribute Failing")?;
-                    let family = xml_doc_mut
-                        .append_child_mut("family", Some(&font_id))
-                        .context("Create Name Failed")?;
-                    let mut family_attributes: HashMap<String, String> = HashMap::new();
-                    family_attributes.insert("val".to_string(), font_style.family.to_string());
-                    family
-                        .set_attribute_mut(family_attributes)
-                        .context("Setting family attribute failing")?;
-                    let scheme = xml_doc_mut
-                        .append_child_mut("scheme", Some(&font_id))
-                        .context("Create scheme Failed")?;
-                    let mut scheme_attributes: HashMap<String, String> = HashMap::new();
-                    scheme_attributes.insert(
-                        "val".to_string(),
-                        FontSchemeValues::get_string(font_style.font_scheme.clone()),
-                    );
-                    scheme
-                        .set_attribute_mut(scheme_attributes)
-                        .context("Setting scheme attribute failing")?;
-                }
-            }
-            // Create Fills Elements
-            {
-                let fills = xml_doc_mut
-                    .insert_children_after_tag_mut("fills", "fonts", None)
-                    .context("Create Fills parents Failed.")?;
-                let fills_id = fills.get_id();
-                let mut attributes = HashMap::new();
-                attributes.insert("count".to_string(), self.fill_collection.len().to_string());
-                fills
-                    .set_attribute_mut(attributes)
-                    .context("Set Fill Attribute Failed")?;
-                for (_, fill_data) in self.fill_collection.as_slice() {
-                    let fill_id = xml_doc_mut
-                        .append_child_mut("fill", Some(&fills_id))
-                        .context("Adding Fill Element Failed")?
-                        .get_id();
-                    let pattern_fill_element = xml_doc_mut
-                        .append_child_mut("patternFill", Some(&fill_id))
-                        .context("Pattern Fill Element Failed")?;
-                    let mut pattern_attribute: HashMap<String, String> = HashMap::new();
-                    pattern_attribute.insert(
-                        "patternType".to_string(),
-                        PatternTypeValues::get_string(fill_data.pattern_type.clone()),
-                    );
-                    pattern_fill_element
-                        .set_attribute_mut(pattern_attribute)
-                        .context("Set Pattern Fill Attribute Failed")?;
-                    let pattern_fill_id = pattern_fill_element.get_id();
-                    if let Some(fg_setting) = fill_data.foreground_color.clone() {
-                        let fg_element = xml_doc_mut
-                            .append_child_mut("fgColor", Some(&pattern_fill_id))
-                            .context("Pattern Fill Foreground Element Failed")?;
-                        let mut fg_attributes: HashMap<String, String> = HashMap::new();
-                        fg_attributes.insert(
-                            ColorSettingTypeValues::get_string(fg_setting.color_setting_type),
-                            fg_setting.value,
-                        );
-                        fg_element
-                            .set_attribute_mut(fg_attributes)
-                            .context("Set Foreground attribute Failed")?;
-                    }
-                    if let Some(bg_setting) = fill_data.background_color.clone() {
-                        let bg_element = xml_doc_mut
-                            .append_child_mut("bgColor", Some(&pattern_fill_id))
-                            .context("Pattern Fill Background Element Failed")?;
-                        let mut bg_attributes: HashMap<String, String> = HashMap::new();
-                        bg_attributes.insert(
-                            ColorSettingTypeValues::get_string(bg_setting.color_setting_type),
-                            bg_setting.value,
-                        );
-                        bg_element
-                            .set_attribute_mut(bg_attributes)
-                            .context("Set Background attribute Failed")?;
-                    }
-                }
-            }
-            // Create Border Elements
-            {
-                let borders = xml_doc_mut
-                    .insert_children_after_tag_mut("borders", "fills", None)
-                    .context("Create borders parents Failed.")?;
-                let borders_id = borders.get_id();
-                let mut attributes = HashMap::new();
-                attributes.insert(
-                    "count".to_string(),
-                    self.border_collection.len().to_string(),
-                );
-                borders
-                    .set_attribute_mut(attributes)
-                    .context("Updating Number Formats Element Attributes Failed")?;
-                for (_, border_data) in self.border_collection.as_slice() {
-                    let border_id = xml_doc_mut
-                        .append_child_mut("border", Some(&borders_id))
-                        .context("Create Border Failed")?
-                        .get_id();
-                    // Left Border Setting
-                    StylePart::add_border_element(
-                        "left",
-                        &mut xml_doc_mut,
-                        &border_id,
-                        border_data.left.clone(),
-                    )?;
-                    //Right Border Setting
-                    StylePart::add_border_element(
-                        "right",
-                        &mut xml_doc_mut,
-                        &border_id,
-                        border_data.right.clone(),
-                    )?;
-                    // Top Border Setting
-                    StylePart::add_border_element(
-                        "top",
-                        &mut xml_doc_mut,
-                        &border_id,
-                        border_data.top.clone(),
-                    )?;
-                    // Bottom Border Setting
-                    StylePart::add_border_element(
-                        "bottom",
-                        &mut xml_doc_mut,
-                        &border_id,
-                        border_data.bottom.clone(),
-                    )?;
-                    // Diagonal Border Setting
-                    StylePart::add_border_element(
-                        "diagonal",
-                        &mut xml_doc_mut,
-                        &border_id,
-                        border_data.diagonal.clone(),
-                    )?;
-                }
-            }
-            // Create Cell Style Elements
-            {
-                StylePart::add_cell_style(&mut xml_doc_mut, &mut self.cell_xfs_collection, true)?;
-            }
-            // Create Defined Cell Style Elements
-            {
-                StylePart::add_cell_style(
-                    &mut xml_doc_mut,
-                    &mut self.cell_style_xfs_collection,
-                    false,
-                )?;
-            }
+    /// Get the id of collection element. Create if not exist
+    fn get_collection_id_mut(
+        xml_document: &mut XmlDocument,
+        collection_tag: &'static str,
+    ) -> AnyResult<usize, AnyError> {
+        if let Some(element_id) = xml_document
+            .get_element_ids_by_tag(collection_tag, None)
+            .and_then(|item| item.first().copied())
+        {
+            return Ok(element_id);
+        }
+        let element_id = xml_document
+            .append_child_mut(collection_tag, None)
+            .context("Create Style Collection Failed")?
+            .get_id();
+        if let Some(root) = xml_document.get_root_mut() {
+            root.order_child_mut(&STYLE_CHILD_ORDER)
+                .context("Failed Reorder the element child's")?;
+        }
+        Ok(element_id)
+    }
+
+    fn set_collection_count_mut(
+        xml_document: &mut XmlDocument,
+        collection_id: &usize,
+        count: usize,
+    ) -> AnyResult<(), AnyError> {
+        if let Some(element) = xml_document.get_element_mut(collection_id) {
+            let mut attributes = element.get_attribute().cloned().unwrap_or_default();
+            attributes.insert("count".to_string(), count.to_string());
+            element
+                .set_attribute_mut(attributes)
+                .context("Updating Style Collection Count Failed")?;
         }
         Ok(())
     }
 
-    pub(crate) fn deserialize_cell_style(
-        style_xfs: XmlElement,
-        xml_doc_mut: &mut XmlDocument,
-    ) -> AnyResult<Vec<(u64, CellXfs)>, AnyError> {
-        let mut style_records = Vec::new();
-        loop {
-            if let Some((xf_id, _)) = style_xfs.pop_child_mut() {
-                let mut cell_xf = CellXfs::default();
-                if let Some(current_element) = xml_doc_mut.pop_element_mut(&xf_id) {
-                    if let Some(attributes) = current_element.get_attribute() {
-                        if let Some(number_format_id) = attributes.get("numFmtId") {
-                            cell_xf.number_format_id = number_format_id
-                                .parse()
-                                .context("Number Number Format Id Parse Failed")?;
-                        }
-                        if let Some(font_id) = attributes.get("fontId") {
-                            cell_xf.font_id =
-                                font_id.parse().context("Number Font Id Parse Failed")?;
-                        }
-                        if let Some(fill_id) = attributes.get("fillId") {
-                            cell_xf.fill_id =
-                                fill_id.parse().context("Number Fill Id Parse Failed")?;
-                        }
-                        if let Some(border_id) = attributes.get("borderId") {
-                            cell_xf.border_id =
-                                border_id.parse().context("Number Border Id Parse Failed")?;
-                        }
-                        if let Some(format_id) = attributes.get("xfId") {
-                            cell_xf.format_id =
-                                format_id.parse().context("Number Format Id Parse Failed")?;
-                        }
-                        if let Some(apply_protection) = attributes.get("applyProtection") {
-                            cell_xf.apply_protection =
-                                ConverterUtil::normalize_bool_property_u8(apply_protection);
-                        }
-                        if let Some(apply_alignment) = attributes.get("applyAlignment") {
-                            cell_xf.apply_alignment =
-                                ConverterUtil::normalize_bool_property_u8(apply_alignment);
-                        }
-                        if let Some(apply_border) = attributes.get("applyBorder") {
-                            cell_xf.apply_border =
-                                ConverterUtil::normalize_bool_property_u8(apply_border);
-                        }
-                        if let Some(apply_fill) = attributes.get("applyFill") {
-                            cell_xf.apply_fill = ConverterUtil::normalize_bool_property_u8(apply_fill);
-                        }
-                        if let Some(apply_font) = attributes.get("applyFont") {
-                            cell_xf.apply_font = ConverterUtil::normalize_bool_property_u8(apply_font);
-                        }
-                        if let Some(apply_number_format) = attributes.get("applyNumberFormat") {
-                            cell_xf.apply_number_format =
-                                ConverterUtil::normalize_bool_property_u8(apply_number_format);
-                        }
-                        // Load Alignment Values if exist
-                        if let Some((alignment_id, _)) = current_element.pop_child_mut() {
-                            if let Some(alignment_element) =
-                                xml_doc_mut.pop_element_mut(&alignment_id)
-                            {
-                                if let Some(alignment_attributes) =
-                                    alignment_element.get_attribute()
-                                {
-                                    if let Some(is_wrap_text) = alignment_attributes.get("wrapText")
-                                    {
-                                        cell_xf.is_wrap_text =
-                                            ConverterUtil::normalize_bool_property_u8(is_wrap_text);
-                                    }
-                                    if let Some(vertical_alignment) =
-                                        alignment_attributes.get("vertical")
-                                    {
-                                        cell_xf.vertical_alignment =
-                                            VerticalAlignmentValues::get_enum(vertical_alignment);
-                                    }
-                                    if let Some(horizontal_alignment) =
-                                        alignment_attributes.get("horizontal")
-                                    {
-                                        cell_xf.horizontal_alignment =
-                                            HorizontalAlignmentValues::get_enum(
-                                                horizontal_alignment,
-                                            );
-                                    }
-                                }
-                            }
-                        }
-                    }
-                    let mut hasher = DefaultHasher::new();
-                    cell_xf.hash(&mut hasher);
-                    style_records.push((hasher.finish(), cell_xf));
-                }
-            } else {
-                break;
-            }
+    /// Records to be available at the start of the collection
+    fn get_default_records(collection_tag: &str) -> Vec<StyleRecord> {
+        match collection_tag {
+            "fonts" => vec![StyleRecord::new("font")
+                .child(StyleRecord::new("sz").attribute("val", "11"))
+                .child(StyleRecord::new("name").attribute("val", "Calibri"))],
+            "fills" => vec![
+                StyleRecord::new("fill")
+                    .child(StyleRecord::new("patternFill").attribute("patternType", "none")),
+                StyleRecord::new("fill")
+                    .child(StyleRecord::new("patternFill").attribute("patternType", "gray125")),
+            ],
+            "borders" => vec![StyleRecord::new("border")],
+            _ => vec![StyleRecord::new("xf")
+                .attribute("numFmtId", "0")
+                .attribute("fontId", "0")
+                .attribute("fillId", "0")
+                .attribute("borderId", "0")],
         }
-        Ok(style_records)
     }
 
-    pub(crate) fn deserialize_border_setting(
-        current_element: &XmlElement,
-        border: &mut BorderSetting,
-        xml_doc_mut: &mut std::cell::RefMut<'_, XmlDocument>,
-    ) -> Result<(), AnyError> {
-        Ok(if let Some(attributes) = current_element.get_attribute() {
-            if let Some(style) = attributes.get("style") {
-                border.style = BorderStyleValues::get_enum(&style);
-                if border.style != BorderStyleValues::None {
-                    if let Some((color_id, _)) = current_element.pop_child_mut() {
-                        if let Some(color_element) = xml_doc_mut.pop_element_mut(&color_id) {
-                            if let Some(attributes) = color_element.get_attribute() {
-                                if let Some(theme) = attributes.get("theme") {
-                                    border.border_color = Some(ColorSetting {
-                                        color_setting_type: ColorSettingTypeValues::Theme,
-                                        value: theme.parse().context("color theme parse failed")?,
-                                    });
-                                } else if let Some(rgb) = attributes.get("rgb") {
-                                    let rgb_string = rgb.to_string();
-                                    border.border_color = Some(ColorSetting {
-                                        color_setting_type: ColorSettingTypeValues::Rgb,
-                                        value: rgb_string,
-                                    });
-                                } else if let Some(indexed) = attributes.get("indexed") {
-                                    border.border_color = Some(ColorSetting {
-                                        color_setting_type: ColorSettingTypeValues::Indexed,
-                                        value: indexed
-                                            .parse()
-                                            .context("color color index parse failed")?,
-                                    });
-                                }
-                            }
-                        }
-                    }
+    /// Get the position of record in the collection. Add it at the end if not exist
+    fn get_record_position_mut(
+        &mut self,
+        xml_document: &mut XmlDocument,
+        collection_tag: &'static str,
+        record: StyleRecord,
+    ) -> AnyResult<usize, AnyError> {
+        if !self.collection_keys.contains_key(collection_tag) {
+            let element_id = Self::get_collection_id_mut(xml_document, collection_tag)?;
+            let get_child_ids = |xml_document: &XmlDocument| {
+                xml_document
+                    .get_element(&element_id)
+                    .map(|item| item.get_child_ids())
+                    .unwrap_or_default()
+            };
+            if get_child_ids(xml_document).is_empty() {
+                for default_record in Self::get_default_records(collection_tag) {
+                    default_record.append_to_tree(xml_document, &element_id)?;
                 }
             }
-        })
-    }
-
-    /// Add Color Element Node To XML
-    fn add_color_element(
-        color_setting: Option<ColorSetting>,
-        xml_doc_mut: &mut std::cell::RefMut<'_, XmlDocument>,
-        parent_id: usize,
-    ) -> Result<(), AnyError> {
-        Ok(if let Some(border_color_setting) = color_setting {
-            let colors = xml_doc_mut
-                .append_child_mut("color", Some(&parent_id))
-                .context("Create Color Element Failed")?;
-            let mut color_attribute: HashMap<String, String> = HashMap::new();
-            color_attribute.insert(
-                ColorSettingTypeValues::get_string(border_color_setting.color_setting_type),
-                border_color_setting.value,
-            );
-            colors
-                .set_attribute_mut(color_attribute)
-                .context("Setting Color Attribute Failed")?;
-        })
-    }
-
-    /// Add Border Element Node to XML
-    fn add_border_element(
-        border_side: &str,
-        xml_doc_mut: &mut std::cell::RefMut<'_, XmlDocument>,
-        border_id: &usize,
-        border_data: BorderSetting,
-    ) -> Result<(), AnyError> {
-        let border_direction = xml_doc_mut
-            .append_child_mut(border_side, Some(&border_id))
-            .context(format!("{} Border Element Creation Failed", border_side))?;
-        let id = border_direction.get_id();
-        if border_data.style != BorderStyleValues::None {
-            let mut left_attribute: HashMap<String, String> = HashMap::new();
-            left_attribute.insert(
-                "style".to_string(),
-                BorderStyleValues::get_string(border_data.style),
+            let child_ids = get_child_ids(xml_document);
+            let mut positions = HashMap::new();
+            for (position, child_id) in child_ids.iter().enumerate() {
+                positions
+                    .entry(Self::get_element_key(xml_document, child_id, 0))
+                    .or_insert(position);
+            }
+            self.collection_keys.insert(
+                collection_tag,
+                CollectionKeys {
+                    element_id,
+                    count: child_ids.len(),
+                    positions,
+                },
             );
-            border_direction
-                .set_attribute_mut(left_attribute)
-                .context(format!("Set {} Attribute Failed", border_side))?;
-            StylePart::add_color_element(border_data.border_color, xml_doc_mut, id)?;
         }
-        Ok(())
+        let collection = self
+            .collection_keys
+            .get_mut(collection_tag)
+            .ok_or(anyhow!("Style Collection Not Found"))?;
+        let key = record.get_key();
+        if let Some(position) = collection.positions.get(&key) {
+            return Ok(*position);
+        }
+        let position = collection.count;
+        record.append_to_tree(xml_document, &collection.element_id)?;
+        collection.count += 1;
+        collection.positions.insert(key, position);
+        Self::set_collection_count_mut(xml_document, &collection.element_id, collection.count)?;
+        Ok(position)
     }
 
-    fn add_cell_style(
-        xml_doc_mut: &mut XmlDocument,
-        xfs_data: &mut Vec<(u64, CellXfs)>,
-        enable_format_id: bool,
-    ) -> Result<(), AnyError> {
-        let cell_style_xfs = xml_doc_mut
-            .insert_children_after_tag_mut(
-                if enable_format_id {
-                    "cellXfs"
-                } else {
-                    "cellStyleXfs"
-                },
-                "borders",
-                None,
-            )
-            .context("Create Cell Style parents Failed.")?;
-        let cell_style_xfs_id = cell_style_xfs.get_id();
-        let mut attributes = HashMap::new();
-        attributes.insert("count".to_string(), xfs_data.len().to_string());
-        cell_style_xfs
-            .set_attribute_mut(attributes)
-            .context("Updating Number Formats Element Attributes Failed")?;
-        for (_, xfs) in xfs_data {
-            let xf = xml_doc_mut
-                .append_child_mut("xf", Some(&cell_style_xfs_id))
-                .context("Create Cell Style Config Failed")?;
-            let xf_id = xf.get_id();
-            let mut attributes: HashMap<String, String> = HashMap::new();
-            attributes.insert("numFmtId".to_string(), xfs.number_format_id.to_string());
-            attributes.insert("fontId".to_string(), xfs.font_id.to_string());
-            attributes.insert("fillId".to_string(), xfs.fill_id.to_string());
-            attributes.insert("borderId".to_string(), xfs.border_id.to_string());
-            if enable_format_id {
-                attributes.insert("xfId".to_string(), xfs.format_id.to_string());
-            }
-            if xfs.apply_font > 0 {
-                attributes.insert("applyFont".to_string(), xfs.apply_font.to_string());
-            }
-            if xfs.apply_alignment > 0 {
-                attributes.insert(
-                    "applyAlignment".to_string(),
-                    xfs.apply_alignment.to_string(),
-                );
-            }
-            if xfs.apply_fill > 0 {
-                attributes.insert("applyFill".to_string(), xfs.apply_fill.to_string());
-            }
-            if xfs.apply_border > 0 {
-                attributes.insert("applyBorder".to_string(), xfs.apply_border.to_string());
-            }
-            if xfs.apply_number_format > 0 {
-                attributes.insert(
-                    "applyNumberFormat".to_string(),
-                    xfs.apply_number_format.to_string(),
-                );
-            }
-            if xfs.apply_protection > 0 {
-                attributes.insert(
-                    "applyProtection".to_string(),
-                    xfs.apply_protection.to_string(),
-                );
-            }
-            xf.set_attribute_mut(attributes)
-                .context("Setting Attributes Failed")?;
-            if xfs.is_wrap_text > 0
-                || xfs.vertical_alignment != VerticalAlignmentValues::None
-                || xfs.horizontal_alignment != HorizontalAlignmentValues::None
+    /// Get the id of custom number format. Add it with next free id if not exist
+    fn get_number_format_id_mut(
+        xml_document: &mut XmlDocument,
+        format_code: String,
+    ) -> AnyResult<u32, AnyError> {
+        let collection_id = Self::get_collection_id_mut(xml_document, "numFmts")?;
+        let child_ids = xml_document
+            .get_element(&collection_id)
+            .map(|item| item.get_child_ids())
+            .unwrap_or_default();
+        let mut next_id = CUSTOM_NUMBER_FORMAT_START;
+        for child_id in &child_ids {
+            if let Some(attributes) = xml_document
+                .get_element(child_id)
+                .and_then(|item| item.get_attribute())
             {
-                let alignment = xml_doc_mut
-                    .append_child_mut("alignment", Some(&xf_id))
-                    .context("Create Cell Alignment Style Config Failed")?;
-                let mut alignment_attributes: HashMap<String, String> = HashMap::new();
-                if xfs.is_wrap_text > 0 {
-                    alignment_attributes
-                        .insert("wrapText".to_string(), xfs.is_wrap_text.to_string());
-                }
-                if xfs.vertical_alignment != VerticalAlignmentValues::None {
-                    alignment_attributes.insert(
-                        "vertical".to_string(),
-                        VerticalAlignmentValues::get_string(xfs.vertical_alignment.clone()),
-                    );
-                }
-                if xfs.horizontal_alignment != HorizontalAlignmentValues::None {
-                    alignment_attributes.insert(
-                        "horizontal".to_string(),
-                        HorizontalAlignmentValues::get_string(xfs.horizontal_alignment.clone()),
+                if let Some(id) = attributes
+                    .get("numFmtId")
+                    .and_then(|item| item.trim().parse::<u32>().ok())
+                {
+                    if attributes.get("formatCode") == Some(&format_code) {
+                        return Ok(id);
+                    }
+                    next_id = next_id.max(
+                        id.checked_add(1)
+                            .ok_or(anyhow!("No free number format id available"))?,
                     );
                 }
-                alignment
-                    .set_attribute_mut(alignment_attributes)
-                    .context("Setting Alignment Attribute Failed")?;
             }
         }
-        Ok(())
+        StyleRecord::new("numFmt")
+            .attribute("numFmtId", next_id)
+            .attribute("formatCode", format_code)
+            .append_to_tree(xml_document, &collection_id)?;
+        Self::set_collection_count_mut(xml_document, &collection_id, child_ids.len() + 1)?;
+        Ok(next_id)
     }
 }
 
 // ################################## mut feature ########################
 impl StylePart {
-    fn generate_setting_hash<T: Hash>(&mut self, item: &T) -> u64 {
-        let mut hasher = DefaultHasher::new();
-        item.hash(&mut hasher);
-        hasher.finish()
+    /// Check every text of the setting can be part of XML content
+    fn validate_style_setting(style_setting: &StyleSetting) -> AnyResult<(), AnyError> {
+        let mut text_collection = vec![&style_setting.font_family, &style_setting.text_color.value];
+        text_collection.extend(style_setting.custom_number_format.iter());
+        text_collection.extend(style_setting.background_color.iter());
+        text_collection.extend(style_setting.foreground_color.iter());
+        for border in [
+            &style_setting.border_left,
+            &style_setting.border_right,
+            &style_setting.border_top,
+            &style_setting.border_bottom,
+            &style_setting.border_diagonal,
+        ] {
+            text_collection.extend(border.border_color.iter().map(|item| &item.value));
+        }
+        if text_collection
+            .iter()
+            .all(|item| item.chars().all(is_xml_char))
+        {
+            Ok(())
+        } else {
+            Err(anyhow!("Style setting has character not allowed in XML"))
+        }
     }
 
     pub(crate) fn get_style_id_mut(
         &mut self,
         style_setting: StyleSetting,
     ) -> AnyResult<StyleId, AnyError> {
-        let style_hash = self.generate_setting_hash(&style_setting);
-        if let Some((_, id)) = self.cache_id.get_key_value(&style_hash) {
-            Ok(StyleId::new(*id))
-        } else {
-            let mut cell_style = CellXfs::default();
-            if style_setting.number_format == NumberFormatValues::Custom {
-                cell_style.apply_number_format = 1;
-                // Get Number Format ID
-                if let Some(custom_format) = style_setting.custom_number_format {
-                    let mut hasher = DefaultHasher::new();
-                    let number_format = NumberFormat {
-                        format_code: custom_format,
-                        format_type: NumberFormatValues::Custom,
-                        ..Default::default()
-                    };
-                    number_format.hash(&mut hasher);
-                    let current_hash = hasher.finish();
-                    if let Some(position) = self
-                        .number_format_collection
-                        .iter()
-                        .position(|(hash, _)| *hash == current_hash)
-                    {
-                        cell_style.number_format_id = position as u16 + 163;
-                    } else {
-                        self.number_format_collection
-                            .push((current_hash, number_format));
-                        cell_style.number_format_id =
-                            (self.number_format_collection.len() - 1) as u16;
-                    }
-                } else {
-                    return Err(anyhow!(
-                        "Custom Format Type is used without providing custom number format."
-                    ));
-                }
+        Self::validate_style_setting(&style_setting)?;
+        if style_setting.number_format == NumberFormatValues::Custom
+            && style_setting.custom_number_format.is_none()
+        {
+            return Err(anyhow!(
+                "Custom Format Type is used without providing custom number format."
+            ));
+        }
+        let xml_document = self
+            .xml_document
+            .upgrade()
+            .ok_or(anyhow!("Failed to upgrade style document"))?;
+        let mut xml_doc_mut = xml_document
+            .try_borrow_mut()
+            .context("xml doc borrow failed")?;
+        // Get Number Format ID
+        let number_format_id = match (
+            style_setting.number_format,
+            style_setting.custom_number_format,
+        ) {
+            (NumberFormatValues::Custom, Some(format_code)) => {
+                Self::get_number_format_id_mut(&mut xml_doc_mut, format_code)?.to_string()
             }
-            // Get Font Style ID
+            (number_format, _) => NumberFormatValues::get_string(number_format),
+        };
+        // Get Font Style ID
+        let mut font = StyleRecord::new("font");
+        if style_setting.is_bold {
+            font = font.child(StyleRecord::new("b"));
+        }
+        if style_setting.is_italic {
+            font = font.child(StyleRecord::new("i"));
+        }
+        if style_setting.is_double_underline {
+            font = font.child(StyleRecord::new("u").attribute("val", "double"));
+        } else if style_setting.is_underline {
+            font = font.child(StyleRecord::new("u"));
+        }
+        let font = font
+            .child(StyleRecord::new("sz").attribute("val", style_setting.font_size))
+            .child(StyleRecord::color("color", style_setting.text_color))
+            .child(StyleRecord::new("name").attribute("val", style_setting.font_family))
+            .child(StyleRecord::new("family").attribute("val", "2"))
+            .child(StyleRecord::new("scheme").attribute("val", "none"));
+        let font_id = self.get_record_position_mut(&mut xml_doc_mut, "fonts", font)?;
+        // Get Fill Style ID
+        let pattern_type = match style_setting.pattern_type {
+            // Color of the fill is visible only along with a pattern
+            PatternTypeValues::None
+                if style_setting.background_color.is_some()
+                    || style_setting.foreground_color.is_some() =>
             {
-                let mut hasher = DefaultHasher::new();
-                let font_style = FontStyle {
-                    name: style_setting.font_family,
-                    is_bold: style_setting.is_bold,
-                    is_italic: style_setting.is_italic,
-                    is_underline: style_setting.is_underline,
-                    is_double_underline: style_setting.is_double_underline,
-                    color: style_setting.text_color,
-                    size: style_setting.font_size,
-                    ..Default::default()
-                };
-                font_style.hash(&mut hasher);
-                let current_hash = hasher.finish();
-                if let Some(position) = self
-                    .font_collection
-                    .iter()
-                    .position(|(hash, _)| *hash == current_hash)
-                {
-                    cell_style.font_id = position as u16;
-                    if position > 0 {
-                        cell_style.apply_font = 1;
-                    }
-                } else {
-                    self.font_collection.push((current_hash, font_style));
-                    cell_style.font_id = (self.font_collection.len() - 1) as u16;
-                    cell_style.apply_font = 1;
-                }
+                PatternTypeValues::Solid
             }
-            // Get Fill Style ID
-            {
-                let mut hasher = DefaultHasher::new();
-                let fill_style = FillStyle {
-                    background_color: if let Some(background_color) = style_setting.background_color
-                    {
-                        Some(ColorSetting {
-                            color_setting_type: ColorSettingTypeValues::Rgb,
-                            value: background_color,
-                        })
-                    } else {
-                        None
-                    },
-                    foreground_color: if let Some(foreground_color) = style_setting.foreground_color
-                    {
-                        Some(ColorSetting {
-                            color_setting_type: ColorSettingTypeValues::Rgb,
-                            value: foreground_color,
-                        })
-                    } else {
-                        None
-                    },
-                    pattern_type: style_setting.pattern_type,
-                    ..Default::default()
-                };
-                fill_style.hash(&mut hasher);
-                let current_hash = hasher.finish();
-                if let Some(position) = self
-                    .fill_collection
-                    .iter()
-                    .position(|(hash, _)| *hash == current_hash)
-                {
-                    cell_style.fill_id = position as u16;
-                    if position > 0 {
-                        cell_style.apply_fill = 1;
-                    }
-                } else {
-                    self.fill_collection.push((current_hash, fill_style));
-                    cell_style.fill_id = (self.fill_collection.len() - 1) as u16;
-                    cell_style.apply_fill = 1;
-                }
+            pattern_type => pattern_type,
+        };
+        let mut pattern_fill = StyleRecord::new("patternFill")
+            .attribute("patternType", PatternTypeValues::get_string(pattern_type));
+        if let Some(color) = style_setting
+            .foreground_color
+            .as_ref()
+            .or(style_setting.background_color.as_ref())
+        {
+            pattern_fill = pattern_fill.child(StyleRecord::new("fgColor").attribute("rgb", color));
+        }
+        if let Some(color) = &style_setting.background_color {
+            pattern_fill = pattern_fill.child(StyleRecord::new("bgColor").attribute("rgb", color));
+        }
+        let fill_id = self.get_record_position_mut(
+            &mut xml_doc_mut,
+            "fills",
+            StyleRecord::new("fill").child(pattern_fill),
+        )?;
+        // Get Border Style ID
+        let border = StyleRecord::new("border")
+            .child(StyleRecord::border("left", style_setting.border_left))
+            .child(StyleRecord::border("right", style_setting.border_right))
+            .child(StyleRecord::border("top", style_setting.border_top))
+            .child(StyleRecord::border("bottom", style_setting.border_bottom))
+            .child(StyleRecord::border(
+                "diagonal",
+                style_setting.border_diagonal,
+            ));
+        let border_id = self.get_record_position_mut(&mut xml_doc_mut, "borders", border)?;
+        // Get Cell Style xfs and Cell xfs
+        let get_xf = |format_id: Option<usize>| {
+            let mut xf = StyleRecord::new("xf")
+                .attribute("numFmtId", &number_format_id)
+                .attribute("fontId", font_id)
+                .attribute("fillId", fill_id)
+                .attribute("borderId", border_id);
+            if let Some(format_id) = format_id {
+                xf = xf.attribute("xfId", format_id);
             }
-            // Get Border Style ID
-            {
-                let mut hasher = DefaultHasher::new();
-                let border_style = BorderStyle {
-                    left: style_setting.border_left,
-                    top: style_setting.border_top,
-                    right: style_setting.border_right,
-                    bottom: style_setting.border_bottom,
-                    diagonal: style_setting.border_diagonal,
-                    ..Default::default()
-                };
-                border_style.hash(&mut hasher);
-                let current_hash = hasher.finish();
-                if let Some(position) = self
-                    .border_collection
-                    .iter()
-                    .position(|(hash, _)| *hash == current_hash)
-                {
-                    cell_style.border_id = position as u16;
-                    if position > 0 {
-                        cell_style.apply_border = 1;
-                    }
-                } else {
-                    self.border_collection.push((current_hash, border_style));
-                    cell_style.border_id = (self.border_collection.len() - 1) as u16;
-                    cell_style.apply_border = 1;
-                }
+            if number_format_id != "0" {
+                xf = xf.attribute("applyNumberFormat", "1");
             }
-            // Get Cell Style xfs to find xfId
-            {
-                let mut hasher = DefaultHasher::new();
-                if style_setting.vertical_alignment != VerticalAlignmentValues::None
-                    || style_setting.horizontal_alignment != HorizontalAlignmentValues::None
-                    || style_setting.is_wrap_text
-                {
-                    cell_style.apply_alignment = 1;
-                }
-                cell_style.vertical_alignment = style_setting.vertical_alignment;
-                cell_style.horizontal_alignment = style_setting.horizontal_alignment;
-                if style_setting.is_wrap_text {
-                    cell_style.is_wrap_text = 1;
-                }
-                let cell_style_xfs = cell_style.clone();
-                cell_style_xfs.hash(&mut hasher);
-                let current_hash = hasher.finish();
-                if let Some(position) = self
-                    .cell_style_xfs_collection
-                    .iter()
-                    .position(|(hash, _)| *hash == current_hash)
-                {
-                    cell_style.format_id = position as u16;
-                } else {
-                    self.cell_style_xfs_collection
-                        .push((current_hash, cell_style_xfs));
-                    cell_style.format_id = (self.cell_style_xfs_collection.len() - 1) as u16;
-                }
+            if font_id > 0 {
+                xf = xf.attribute("applyFont", "1");
             }
-            // Get Cell xfs
-            {
-                let mut hasher = DefaultHasher::new();
-                let font_style = cell_style;
-                font_style.hash(&mut hasher);
-                let current_hash = hasher.finish();
-                if let Some(position) = self
-                    .cell_xfs_collection
-                    .iter()
-                    .position(|(hash, _)| *hash == current_hash)
-                {
-                    Ok(StyleId::new(position as u32))
-                } else {
-                    self.cell_xfs_collection.push((current_hash, font_style));
-                    Ok(StyleId::new((self.cell_xfs_collection.len() - 1) as u32))
-                }
+            if fill_id > 0 {
+                xf = xf.attribute("applyFill", "1");
             }
-        }
+            if border_id > 0 {
+                xf = xf.attribute("applyBorder", "1");
+            }
+            let mut alignment = StyleRecord::new("alignment");
+            if style_setting.is_wrap_text {
+                alignment = alignment.attribute("wrapText", "1");
+            }
+            if style_setting.vertical_alignment != VerticalAlignmentValues::None {
+                alignment = alignment.attribute(
+                    "vertical",
+                    VerticalAlignmentValues::get_string(style_setting.vertical_alignment.clone()),
+                );
+            }
+            if style_setting.horizontal_alignment != HorizontalAlignmentValues::None {
+                alignment = alignment.attribute(
+                    "horizontal",
+                    HorizontalAlignmentValues::get_string(
+                        style_setting.horizontal_alignment.clone(),
+                    ),
+                );
+            }
+            if alignment.attributes.is_empty() {
+                xf
+            } else {
+                xf.attribute("applyAlignment", "1").child(alignment)
+            }
+        };
+        let format_id =
+            self.get_record_position_mut(&mut xml_doc_mut, "cellStyleXfs", get_xf(None))?;
+        let style_id =
+            self.get_record_position_mut(&mut xml_doc_mut, "cellXfs", get_xf(Some(format_id)))?;
+        Ok(StyleId::new(
+            u32::try_from(style_id).context("Style Id Exceeded Limit")?,
+        ))
     }
 }
-- 
2.43.0


From 1cce2dec74dbd0a65f35af217f13536f9cfb68fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:50 +0000
Subject: [PATCH 10/30] fix: keep workbook views and sheet identity, apply
 requested sheet state

The active sheet was never written, hiding a sheet made others visible, sheet ids
were renumbered and every view setting the library does not know was lost. Sheet
names are compared irrespective of case and unknown sheets are reported.
---
 rs/src/files/xml/xml_tree.rs                  |  18 +
 .../global/references/element_dictionary.rs   |   4 +
 .../spreadsheet_2007/parts/workbook.rs        | 674 +++++++++---------
 .../spreadsheet_2007/parts/worksheet.rs       |  68 +-
 4 files changed, 400 insertions(+), 364 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index d331bfe..2c9ee7e 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -135,6 +135,24 @@ impl XmlDocument {
         }
     }
 
+    /// Replace the child list of the parent
+    pub(crate) fn set_child_ids_mut(&mut self, parent_id: &usize, child_ids: &[usize]) {
+        if let Some(parent_element) = self.xml_element_collection.get(parent_id) {
+            let children = child_ids
+                .iter()
+                .filter_map(|child_id| {
+                    self.xml_element_collection
+                        .get(child_id)
+                        .map(|item| XmlElementChild {
+                            id: *child_id,
+                            tag: item.tag.clone(),
+                        })
+                })
+                .collect();
+            *parent_element.children.borrow_mut() = children;
+        }
+    }
+
     pub(crate) fn pop_element_mut(&mut self, element_id: &usize) -> Option<XmlElement> {
         self.xml_element_collection.remove(element_id)
     }
diff --git a/rs/src/global/references/element_dictionary.rs b/rs/src/global/references/element_dictionary.rs
index 715cf7c..23bb735 100644
--- a/rs/src/global/references/element_dictionary.rs
+++ b/rs/src/global/references/element_dictionary.rs
@@ -10,6 +10,10 @@ pub(crate) struct Content {
     pub(crate) default_path: &'static str,
     pub(crate) default_name: &'static str,
 }
+/// Namespace of the attributes referring a relationship
+pub(crate) const RELATIONSHIP_NAMESPACE: &str =
+    "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
+
 /// Common Content
 pub(crate) static COMMON_TYPE_COLLECTION: Map<&'static str, &'static Content> = phf_map! {
     "content_type"=>&Content{
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 059cf61..7c9c0e5 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -1,7 +1,7 @@
 use crate::{
     converters::ConverterUtil,
-    element_dictionary::EXCEL_TYPE_COLLECTION,
-    files::{OfficeDocument, XmlDocument, XmlSerializer},
+    element_dictionary::{EXCEL_TYPE_COLLECTION, RELATIONSHIP_NAMESPACE},
+    files::{is_xml_char, OfficeDocument, XmlDocument, XmlSerializer},
     global_2007::{
         parts::{RelationsPart, ThemePart},
         traits::{XmlDocumentPart, XmlDocumentPartCommon},
@@ -17,10 +17,48 @@ use crate::{
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
-    collections::HashMap,
+    collections::{BTreeMap, HashMap},
     rc::{Rc, Weak},
 };
 
+/// Details of a sheet in the order it is listed in the workbook
+#[derive(Debug, Clone)]
+pub(crate) struct SheetRecord {
+    pub(crate) name: String,
+    pub(crate) relationship_id: String,
+    pub(crate) sheet_id: u32,
+    is_active: bool,
+    is_hidden: bool,
+    /// Position in the source workbook and attributes of the sheet element
+    source: Option<(usize, HashMap<String, String>)>,
+}
+
+impl SheetRecord {
+    pub(crate) fn new(name: String, relationship_id: String, sheet_id: u32) -> Self {
+        Self {
+            name,
+            relationship_id,
+            sheet_id,
+            is_active: false,
+            is_hidden: false,
+            source: None,
+        }
+    }
+
+    /// Sheet names are unique irrespective of its case
+    pub(crate) fn is_same_name(&self, sheet_name: &str) -> bool {
+        self.name.to_lowercase() == sheet_name.to_lowercase()
+    }
+
+    pub(crate) fn validate_name(sheet_name: &str) -> AnyResult<(), AnyError> {
+        if sheet_name.chars().all(is_xml_char) {
+            Ok(())
+        } else {
+            Err(anyhow!("Sheet name has character not allowed in XML"))
+        }
+    }
+}
+
 #[derive(Debug)]
 pub struct WorkbookPart {
     office_document: Weak<RefCell<OfficeDocument>>,
@@ -29,38 +67,12 @@ pub struct WorkbookPart {
     common_service: Rc<RefCell<CommonServices>>,
     workbook_relationship_part: Rc<RefCell<RelationsPart>>,
     theme_part: ThemePart,
-    /// This contain the sheet name, relationId, active sheet, hide sheet
-    sheet_collection: Rc<RefCell<Vec<(String, String, bool, bool)>>>,
-    workbook_view: Option<WorkbookView>,
-}
-
-#[derive(Debug)]
-pub(crate) struct WorkbookView {
-    active_tab: Option<String>,
-    first_sheet: Option<String>,
-    visibility: Option<String>,
-    minimize: bool,
-    hide_horizontal_scroll: bool,
-    hide_vertical_scroll: bool,
-    hide_sheet_tab: bool,
-    sheet_tab_ratio: Option<i16>,
-    auto_filter_date_grouping: Option<bool>,
-}
-
-impl Default for WorkbookView {
-    fn default() -> Self {
-        WorkbookView {
-            active_tab: None,
-            first_sheet: None,
-            minimize: false,
-            auto_filter_date_grouping: None,
-            hide_sheet_tab: false,
-            hide_vertical_scroll: false,
-            hide_horizontal_scroll: false,
-            sheet_tab_ratio: None,
-            visibility: None,
-        }
-    }
+    /// Sheets in the order of the workbook
+    sheet_collection: Rc<RefCell<Vec<SheetRecord>>>,
+    /// Number of sheets in the source
+    source_sheet_count: usize,
+    /// Attribute : Value of the workbook view that are updated
+    workbook_view_updates: BTreeMap<&'static str, String>,
 }
 
 impl Drop for WorkbookPart {
@@ -113,103 +125,12 @@ impl XmlDocumentPartCommon for WorkbookPart {
                     let mut xml_doc_mut = xml_document_mut
                         .try_borrow_mut()
                         .context("Borrow XML Document Failed")?;
-                    let mut sheet_count = 1;
-                    if let Some(workbook_view) = &self.workbook_view {
-                        // Create and Set BookViews
-                        let book_views_id = xml_doc_mut
-                            .insert_children_after_tag_mut("bookViews", "fileVersion", None)
-                            .context("Create book viewsD Node Failed")?
-                            .get_id();
-                        let workbook_view_element = xml_doc_mut
-                            .append_child_mut("workbookView", Some(&book_views_id))
-                            .context("Failed to create workbook view")?;
-                        let mut attributes: HashMap<String, String> = HashMap::new();
-                        if let Some(active_tab) = &workbook_view.active_tab {
-                            attributes.insert("activeTab".to_string(), active_tab.clone());
-                        }
-                        if let Some(first_sheet) = &workbook_view.first_sheet {
-                            attributes.insert("firstSheet".to_string(), first_sheet.clone());
-                        }
-                        if let Some(tab_ratio) = &workbook_view.sheet_tab_ratio {
-                            attributes.insert("tabRatio".to_string(), tab_ratio.to_string());
-                        }
-                        if let Some(auto_filter_date_grouping) =
-                            &workbook_view.auto_filter_date_grouping
-                        {
-                            attributes.insert(
-                                "tabRatio".to_string(),
-                                if auto_filter_date_grouping.to_owned() {
-                                    "1".to_string()
-                                } else {
-                                    "0".to_string()
-                                },
-                            );
-                        }
-                        attributes.insert(
-                            "minimized".to_string(),
-                            if workbook_view.minimize {
-                                "1".to_string()
-                            } else {
-                                "0".to_string()
-                            },
-                        );
-                        if let Some(visibility) = &workbook_view.visibility {
-                            attributes.insert("visibility".to_string(), visibility.clone());
-                        }
-                        attributes.insert(
-                            "showSheetTabs".to_string(),
-                            if workbook_view.hide_sheet_tab {
-                                "0".to_string()
-                            } else {
-                                "1".to_string()
-                            },
-                        );
-                        attributes.insert(
-                            "showVerticalScroll".to_string(),
-                            if workbook_view.hide_vertical_scroll {
-                                "0".to_string()
-                            } else {
-                                "1".to_string()
-                            },
-                        );
-                        attributes.insert(
-                            "showHorizontalScroll".to_string(),
-                            if workbook_view.hide_horizontal_scroll {
-                                "0".to_string()
-                            } else {
-                                "1".to_string()
-                            },
-                        );
-                        workbook_view_element
-                            .set_attribute_mut(attributes)
-                            .context("Failed to set workbook view attributes")?;
-                    }
-                    // Create and set Sheets
-                    let sheets_id = xml_doc_mut
-                        .insert_children_after_tag_mut("sheets", "bookViews", None)
-                        .context("Create Sheets Node Failed")?
-                        .get_id();
-                    for (sheet_display_name, relationship_id, _, hide) in &self
-                        .sheet_collection
-                        .try_borrow_mut()
-                        .context("Failed to pull Sheet Name Collection")?
-                        .clone()
-                    {
-                        let sheet = xml_doc_mut
-                            .append_child_mut("sheet", Some(&sheets_id))
-                            .context("Create Sheet Node Failed")?;
-                        let mut attributes = HashMap::new();
-                        attributes.insert("name".to_string(), sheet_display_name.to_string());
-                        attributes.insert("sheetId".to_string(), sheet_count.to_string());
-                        attributes.insert("r:id".to_string(), relationship_id.to_string());
-                        if *hide {
-                            attributes.insert("state".to_string(), "hidden".to_string());
-                        }
-                        sheet
-                            .set_attribute_mut(attributes)
-                            .context("Sheet Attributes Failed")?;
-                        sheet_count += 1;
-                    }
+                    self.save_workbook_view(&mut xml_doc_mut)
+                        .context("Save Workbook View Failed")?;
+                    self.save_sheets(&mut xml_doc_mut)
+                        .context("Save Sheets Failed")?;
+                    self.save_defined_names(&mut xml_doc_mut)
+                        .context("Save Defined Names Failed")?;
                     if let Some(root_element) = xml_doc_mut.get_root_mut() {
                         root_element
                             .order_child_mut(
@@ -282,7 +203,7 @@ impl XmlDocumentPart for WorkbookPart {
                     share_string,
                     style,
                 )));
-                let (sheet_collection, workbook_view) =
+                let sheet_collection =
                     Self::load_sheet_names(&mut file_tree).context("Loading Sheet Names Failed")?;
                 Ok(Self {
                     office_document,
@@ -291,8 +212,9 @@ impl XmlDocumentPart for WorkbookPart {
                     common_service,
                     workbook_relationship_part,
                     theme_part,
+                    source_sheet_count: sheet_collection.len(),
                     sheet_collection: Rc::new(RefCell::new(sheet_collection)),
-                    workbook_view,
+                    workbook_view_updates: BTreeMap::new(),
                 })
             },
             "Create New Workbook"
@@ -305,161 +227,242 @@ impl XmlDocumentPart for WorkbookPart {
 impl WorkbookPart {
     fn load_sheet_names(
         xml_document: &mut Weak<RefCell<XmlDocument>>,
-    ) -> AnyResult<(Vec<(String, String, bool, bool)>, Option<WorkbookView>), AnyError> {
+    ) -> AnyResult<Vec<SheetRecord>, AnyError> {
         log_elapsed!(
             || {
-                let mut sheet_collection = Vec::new();
-                let mut workbook_view = None;
+                let mut sheet_collection: Vec<SheetRecord> = Vec::new();
                 if let Some(xml_document) = xml_document.upgrade() {
-                    let mut xml_doc_mut = xml_document
-                        .try_borrow_mut()
-                        .context("xml doc borrow failed")?;
-                    // Deconstruct Book View for sheet collection data
-                    if let Some(mut book_views_vec) =
-                        xml_doc_mut.pop_elements_by_tag_mut("bookViews", None)
-                    {
-                        if let Some(book_views) = book_views_vec.pop() {
-                            loop {
-                                if let Some((workbook_view_id, _)) = book_views.pop_child_mut() {
-                                    if let Some(workbook_view_element) =
-                                        xml_doc_mut.pop_element_mut(&workbook_view_id)
-                                    {
-                                        if let Some(attributes) =
-                                            workbook_view_element.get_attribute()
-                                        {
-                                            workbook_view = Some(WorkbookView {
-                                                auto_filter_date_grouping: if let Some(
-                                                    auto_filter_data_group,
-                                                ) =
-                                                    attributes.get("autoFilterDateGrouping")
-                                                {
-                                                    Some(
-                                                        ConverterUtil::normalize_bool_property_u8(
-                                                            auto_filter_data_group,
-                                                        ) == 1,
-                                                    )
-                                                } else {
-                                                    None
-                                                },
-                                                sheet_tab_ratio: if let Some(tab_ratio) =
-                                                    attributes.get("tabRatio")
-                                                {
-                                                    Some(tab_ratio.parse().context(
-                                                        "Failed to Parse Tab Ratio Numeric",
-                                                    )?)
-                                                } else {
-                                                    None
-                                                },
-                                                active_tab: if let Some(active_tab) =
-                                                    attributes.get("activeTab")
-                                                {
-                                                    Some(active_tab.to_string())
-                                                } else {
-                                                    None
-                                                },
-                                                first_sheet: if let Some(first_sheet) =
-                                                    attributes.get("firstSheet")
-                                                {
-                                                    Some(first_sheet.to_string())
-                                                } else {
-                                                    None
-                                                },
-                                                hide_sheet_tab: if let Some(hide_sheet_tab) =
-                                                    attributes.get("showSheetTabs")
-                                                {
-                                                    ConverterUtil::normalize_bool_property_u8(
-                                                        hide_sheet_tab,
-                                                    ) == 1
-                                                } else {
-                                                    false
-                                                },
-                                                visibility: if let Some(visibility) =
-                                                    attributes.get("visibility")
-                                                {
-                                                    Some(visibility.to_string())
-                                                } else {
-                                                    None
-                                                },
-                                                minimize: if let Some(minimize) =
-                                                    attributes.get("minimized")
-                                                {
-                                                    ConverterUtil::normalize_bool_property_u8(minimize)
-                                                        == 1
-                                                } else {
-                                                    false
-                                                },
-                                                hide_horizontal_scroll: if let Some(
-                                                    hide_horizontal_scroll,
-                                                ) =
-                                                    attributes.get("showHorizontalScroll")
-                                                {
-                                                    ConverterUtil::normalize_bool_property_u8(
-                                                        hide_horizontal_scroll,
-                                                    ) == 0
-                                                } else {
-                                                    false
-                                                },
-                                                hide_vertical_scroll: if let Some(
-                                                    hide_vertical_scroll,
-                                                ) =
-                                                    attributes.get("showVerticalScroll")
-                                                {
-                                                    ConverterUtil::normalize_bool_property_u8(
-                                                        hide_vertical_scroll,
-                                                    ) == 0
-                                                } else {
-                                                    false
-                                                },
-                                            })
-                                        }
-                                    }
-                                } else {
-                                    break;
-                                }
-                            }
-                        }
-                    }
-                    // Deconstruct Sheets into collection
-                    if let Some(mut sheets_vec) =
-                        xml_doc_mut.pop_elements_by_tag_mut("sheets", None)
-                    {
-                        if let Some(sheets) = sheets_vec.pop() {
-                            // Load Sheet from File if exist
-                            loop {
-                                if let Some((sheet_id, _)) = sheets.pop_child_mut() {
-                                    if let Some(sheet) = xml_doc_mut.pop_element_mut(&sheet_id) {
-                                        if let Some(attributes) = sheet.get_attribute() {
-                                            let name = attributes.get("name").ok_or(anyhow!(
-                                                "Error When Trying to read Sheet Details."
-                                            ))?;
-                                            let r_id = attributes.get("r:id").ok_or(anyhow!(
-                                                "Error When Trying to read Sheet Details."
-                                            ))?;
-                                            let state = attributes.get("state");
-                                            sheet_collection.push((
-                                                name.to_string(),
-                                                r_id.to_string(),
-                                                false,
-                                                if let Some(state) = state {
-                                                    state == "hidden"
-                                                } else {
-                                                    false
-                                                },
-                                            ));
-                                        }
-                                    }
-                                } else {
-                                    break;
-                                }
-                            }
-                        }
+                    let xml_doc = xml_document.try_borrow().context("xml doc borrow failed")?;
+                    let namespaces = xml_doc
+                        .get_root()
+                        .and_then(|item| item.get_namespace())
+                        .unwrap_or_default();
+                    for sheet_id in Self::get_child_ids(&xml_doc, "sheets", "sheet") {
+                        let attributes = xml_doc
+                            .get_element(&sheet_id)
+                            .and_then(|item| item.get_attribute())
+                            .ok_or(anyhow!("Error When Trying to read Sheet Details."))?;
+                        let name = attributes
+                            .get("name")
+                            .ok_or(anyhow!("Error When Trying to read Sheet Details."))?;
+                        // The relationship namespace can be bound to any prefix
+                        let relationship_id = attributes
+                            .iter()
+                            .find(|(key, _)| {
+                                key.strip_suffix(":id").is_some_and(|prefix| {
+                                    attributes
+                                        .get(&format!("xmlns:{}", prefix))
+                                        .or(namespaces.get(prefix))
+                                        .is_some_and(|item| item == RELATIONSHIP_NAMESPACE)
+                                })
+                            })
+                            .map(|(_, value)| value)
+                            .ok_or(anyhow!("Error When Trying to read Sheet Details."))?;
+                        let sheet_id = attributes
+                            .get("sheetId")
+                            .ok_or(anyhow!("Error When Trying to read Sheet Details."))?
+                            .trim()
+                            .parse()
+                            .context("Failed to parse sheet id")?;
+                        sheet_collection.push(SheetRecord {
+                            is_hidden: attributes.get("state").is_some_and(|item| item == "hidden"),
+                            source: Some((sheet_collection.len(), attributes.clone())),
+                            ..SheetRecord::new(
+                                name.to_string(),
+                                relationship_id.to_string(),
+                                sheet_id,
+                            )
+                        });
                     }
                 }
-                Ok((sheet_collection, workbook_view))
+                Ok(sheet_collection)
             },
             "Load Existing Workbook"
         )
     }
+
+    /// Get child element ids of the first matching root child
+    fn get_child_ids(xml_doc: &XmlDocument, parent_tag: &str, tag: &str) -> Vec<usize> {
+        xml_doc
+            .get_element_ids_by_tag(parent_tag, None)
+            .and_then(|item| item.first().copied())
+            .and_then(|parent_id| xml_doc.get_element_ids_by_tag(tag, Some(&parent_id)))
+            .unwrap_or_default()
+    }
+
+    /// Update the first workbook view with only the values set
+    fn save_workbook_view(&self, xml_doc_mut: &mut XmlDocument) -> AnyResult<(), AnyError> {
+        let view_id = Self::get_child_ids(xml_doc_mut, "bookViews", "workbookView")
+            .first()
+            .copied();
+        let mut attributes = view_id
+            .and_then(|view_id| xml_doc_mut.get_element(&view_id))
+            .and_then(|item| item.get_attribute().cloned())
+            .unwrap_or_default();
+        let source_attributes = attributes.clone();
+        for (key, value) in &self.workbook_view_updates {
+            attributes.insert(key.to_string(), value.clone());
+        }
+        // Sheet index follows the sheet
+        let sheet_collection = self
+            .sheet_collection
+            .try_borrow()
+            .context("Failed to pull Sheet Name Collection")?;
+        for key in ["firstSheet", "activeTab"] {
+            let source_index = match attributes.get(key) {
+                Some(value) => value.trim().parse::<usize>().unwrap_or(0),
+                None => 0,
+            };
+            let mut index = sheet_collection
+                .iter()
+                .position(|item| {
+                    item.source
+                        .as_ref()
+                        .is_some_and(|(position, _)| *position == source_index)
+                })
+                .unwrap_or(source_index.min(sheet_collection.len().saturating_sub(1)));
+            if key == "activeTab" {
+                if let Some(position) = sheet_collection.iter().position(|item| item.is_active) {
+                    index = position;
+                }
+            }
+            if index != source_index {
+                attributes.insert(key.to_string(), index.to_string());
+            }
+        }
+        if attributes != source_attributes {
+            let view_id = match view_id {
+                Some(view_id) => view_id,
+                None => {
+                    let book_views_id = match xml_doc_mut
+                        .get_element_ids_by_tag("bookViews", None)
+                        .and_then(|item| item.first().copied())
+                    {
+                        Some(book_views_id) => book_views_id,
+                        None => xml_doc_mut
+                            .insert_children_after_tag_mut("bookViews", "fileVersion", None)
+                            .context("Create book viewsD Node Failed")?
+                            .get_id(),
+                    };
+                    xml_doc_mut
+                        .append_child_mut("workbookView", Some(&book_views_id))
+                        .context("Failed to create workbook view")?
+                        .get_id()
+                }
+            };
+            if let Some(workbook_view_element) = xml_doc_mut.get_element_mut(&view_id) {
+                workbook_view_element
+                    .set_attribute_mut(attributes)
+                    .context("Failed to set workbook view attributes")?;
+            }
+        }
+        Ok(())
+    }
+
+    fn save_sheets(&self, xml_doc_mut: &mut XmlDocument) -> AnyResult<(), AnyError> {
+        // Get the prefix bound to relationship namespace
+        let mut relationship_prefix = xml_doc_mut
+            .get_root()
+            .and_then(|item| item.get_namespace())
+            .unwrap_or_default()
+            .into_iter()
+            .filter(|(prefix, namespace)| {
+                prefix != "<Default>" && namespace == RELATIONSHIP_NAMESPACE
+            })
+            .map(|(prefix, _)| prefix)
+            .min();
+        let sheets_id = match xml_doc_mut
+            .get_element_ids_by_tag("sheets", None)
+            .and_then(|item| item.first().copied())
+        {
+            Some(sheets_id) => sheets_id,
+            None => xml_doc_mut
+                .insert_children_after_tag_mut("sheets", "bookViews", None)
+                .context("Create Sheets Node Failed")?
+                .get_id(),
+        };
+        xml_doc_mut.set_child_ids_mut(&sheets_id, &[]);
+        for sheet_record in self
+            .sheet_collection
+            .try_borrow()
+            .context("Failed to pull Sheet Name Collection")?
+            .iter()
+        {
+            let mut attributes = HashMap::new();
+            if let Some((_, source_attributes)) = &sheet_record.source {
+                attributes = source_attributes.clone();
+            } else {
+                let prefix = relationship_prefix.get_or_insert("r".to_string()).clone();
+                if prefix == "r" {
+                    attributes.insert("xmlns:r".to_string(), RELATIONSHIP_NAMESPACE.to_string());
+                }
+                attributes.insert(
+                    format!("{}:id", prefix),
+                    sheet_record.relationship_id.to_string(),
+                );
+                attributes.insert("sheetId".to_string(), sheet_record.sheet_id.to_string());
+            }
+            attributes.insert("name".to_string(), sheet_record.name.to_string());
+            if sheet_record.is_hidden {
+                attributes.insert("state".to_string(), "hidden".to_string());
+            }
+            xml_doc_mut
+                .append_child_mut("sheet", Some(&sheets_id))
+                .context("Create Sheet Node Failed")?
+                .set_attribute_mut(attributes)
+                .context("Sheet Attributes Failed")?;
+        }
+        Ok(())
+    }
+
+    /// Names local to a sheet refer the sheet by its position
+    fn save_defined_names(&self, xml_doc_mut: &mut XmlDocument) -> AnyResult<(), AnyError> {
+        let mut new_position: Vec<Option<usize>> = vec![None; self.source_sheet_count];
+        for (position, sheet_record) in self
+            .sheet_collection
+            .try_borrow()
+            .context("Failed to pull Sheet Name Collection")?
+            .iter()
+            .enumerate()
+        {
+            if let Some((source_position, _)) = &sheet_record.source {
+                new_position[*source_position] = Some(position);
+            }
+        }
+        let mut retained_ids = Vec::new();
+        let defined_name_ids = Self::get_child_ids(xml_doc_mut, "definedNames", "definedName");
+        for defined_name_id in &defined_name_ids {
+            let element = xml_doc_mut
+                .get_element_mut(defined_name_id)
+                .ok_or(anyhow!("Defined Name Element Not Found"))?;
+            let position = element
+                .get_attribute()
+                .and_then(|item| item.get("localSheetId"))
+                .and_then(|item| item.trim().parse::<usize>().ok())
+                .and_then(|item| new_position.get(item).map(|position| (item, *position)));
+            match position {
+                Some((_, None)) => continue,
+                Some((source_position, Some(position))) if source_position != position => {
+                    if let Some(attributes) = element.get_attribute_mut() {
+                        attributes.insert("localSheetId".to_string(), position.to_string());
+                    }
+                }
+                _ => {}
+            }
+            retained_ids.push(*defined_name_id);
+        }
+        if retained_ids.len() != defined_name_ids.len() {
+            if retained_ids.is_empty() {
+                xml_doc_mut.pop_elements_by_tag_mut("definedNames", None);
+            } else if let Some(parent_id) = xml_doc_mut
+                .get_element_ids_by_tag("definedNames", None)
+                .and_then(|item| item.first().copied())
+            {
+                xml_doc_mut.set_child_ids_mut(&parent_id, &retained_ids);
+            }
+        }
+        Ok(())
+    }
 }
 
 // ############################# Feature Function ######################################
@@ -492,7 +495,7 @@ impl WorkbookPart {
             .try_borrow()
             .context("Failed to pull Sheet Name Collection")?
             .iter()
-            .map(|(sheet_name, _, _, _)| sheet_name.to_string())
+            .map(|item| item.name.to_string())
             .collect::<Vec<String>>())
     }
 }
@@ -509,6 +512,7 @@ impl WorkbookPart {
             Rc::downgrade(&self.workbook_relationship_part),
             Rc::downgrade(&self.common_service),
             sheet_name,
+            true,
         )
         .context("Worksheet Creation Failed")?)
     }
@@ -522,6 +526,7 @@ impl WorkbookPart {
                     Rc::downgrade(&self.workbook_relationship_part),
                     Rc::downgrade(&self.common_service),
                     Some(sheet_name.to_string()),
+                    false,
                 )
                 .context("Worksheet Creation Failed")
             },
@@ -531,65 +536,45 @@ impl WorkbookPart {
 
     /// Set Active sheet on opening the excel
     pub(crate) fn set_active_sheet_mut(&mut self, sheet_name: &str) -> AnyResult<(), AnyError> {
-        for (current_sheet_name, _, active_sheet, _) in self
+        let mut sheet_collection = self
             .sheet_collection
             .try_borrow_mut()
-            .context("Failed to pull Sheet Collection Handle")?
-            .iter_mut()
-        {
-            if current_sheet_name == sheet_name {
-                *active_sheet = true
-            } else {
-                *active_sheet = false
-            }
+            .context("Failed to pull Sheet Collection Handle")?;
+        if !sheet_collection.iter().any(|item| item.name == sheet_name) {
+            return Err(anyhow!("Sheet Name not found in the stack"));
+        }
+        for item in sheet_collection.iter_mut() {
+            item.is_active = item.name == sheet_name;
         }
         Ok(())
     }
 
     /// Set workbook visibility
     pub(crate) fn set_visibility_mut(&mut self, is_visible: bool) -> AnyResult<(), AnyError> {
-        if let Some(workbook_view) = &mut self.workbook_view {
-            workbook_view.visibility = if is_visible {
-                Some("visible".to_string())
+        self.workbook_view_updates.insert(
+            "visibility",
+            if is_visible {
+                "visible".to_string()
             } else {
-                Some("hidden".to_string())
-            }
-        } else {
-            self.workbook_view = Some(WorkbookView {
-                visibility: if is_visible {
-                    Some("visible".to_string())
-                } else {
-                    Some("hidden".to_string())
-                },
-                ..WorkbookView::default()
-            })
-        }
+                "hidden".to_string()
+            },
+        );
         Ok(())
     }
 
     /// Set workbook minimized
     pub(crate) fn minimize_workbook_mut(&mut self, is_minimized: bool) -> AnyResult<(), AnyError> {
-        if let Some(workbook_view) = &mut self.workbook_view {
-            workbook_view.minimize = is_minimized;
-        } else {
-            self.workbook_view = Some(WorkbookView {
-                minimize: is_minimized,
-                ..WorkbookView::default()
-            })
-        }
+        self.workbook_view_updates
+            .insert("minimized", ConverterUtil::bool_xml_flag(&is_minimized));
         Ok(())
     }
 
     /// Set visibility of sheet tabs in workbook
     pub(crate) fn hide_sheet_tabs_mut(&mut self, hide_sheet_tab: bool) -> AnyResult<(), AnyError> {
-        if let Some(workbook_view) = &mut self.workbook_view {
-            workbook_view.hide_sheet_tab = hide_sheet_tab;
-        } else {
-            self.workbook_view = Some(WorkbookView {
-                hide_sheet_tab,
-                ..WorkbookView::default()
-            })
-        }
+        self.workbook_view_updates.insert(
+            "showSheetTabs",
+            ConverterUtil::bool_xml_flag(&!hide_sheet_tab),
+        );
         Ok(())
     }
 
@@ -598,14 +583,10 @@ impl WorkbookPart {
         &mut self,
         hide_vertical_scroll: bool,
     ) -> AnyResult<(), AnyError> {
-        if let Some(workbook_view) = &mut self.workbook_view {
-            workbook_view.hide_vertical_scroll = hide_vertical_scroll;
-        } else {
-            self.workbook_view = Some(WorkbookView {
-                hide_vertical_scroll,
-                ..WorkbookView::default()
-            })
-        }
+        self.workbook_view_updates.insert(
+            "showVerticalScroll",
+            ConverterUtil::bool_xml_flag(&!hide_vertical_scroll),
+        );
         Ok(())
     }
 
@@ -614,32 +595,27 @@ impl WorkbookPart {
         &mut self,
         hide_horizontal_scroll: bool,
     ) -> AnyResult<(), AnyError> {
-        if let Some(workbook_view) = &mut self.workbook_view {
-            workbook_view.hide_horizontal_scroll = hide_horizontal_scroll;
-        } else {
-            self.workbook_view = Some(WorkbookView {
-                hide_horizontal_scroll,
-                ..WorkbookView::default()
-            })
-        }
+        self.workbook_view_updates.insert(
+            "showHorizontalScroll",
+            ConverterUtil::bool_xml_flag(&!hide_horizontal_scroll),
+        );
         Ok(())
     }
 
     /// Hide sheet on opening the excel
     pub(crate) fn hide_sheet_mut(&mut self, sheet_name: &str) -> AnyResult<(), AnyError> {
-        for (current_sheet_name, _, _, hide_sheet) in self
+        if let Some(record) = self
             .sheet_collection
             .try_borrow_mut()
             .context("Failed to pull Sheet Collection Handle")?
             .iter_mut()
+            .find(|item| item.name == sheet_name)
         {
-            if current_sheet_name == sheet_name {
-                *hide_sheet = true
-            } else {
-                *hide_sheet = false
-            }
+            record.is_hidden = true;
+            Ok(())
+        } else {
+            Err(anyhow!("Sheet Name not found in the stack"))
         }
-        Ok(())
     }
 
     pub(crate) fn rename_sheet_name_mut(
@@ -647,13 +623,17 @@ impl WorkbookPart {
         old_sheet_name: &str,
         new_sheet_name: &str,
     ) -> AnyResult<(), AnyError> {
+        SheetRecord::validate_name(new_sheet_name)?;
         // Check if sheet with same name exist
         if self
             .sheet_collection
             .try_borrow()
             .context("Failed to pull Sheet Name Collection")?
             .iter()
-            .any(|item| new_sheet_name == item.0)
+            .any(|item| {
+                item.name == new_sheet_name
+                    || (item.name != old_sheet_name && item.is_same_name(new_sheet_name))
+            })
         {
             Err(anyhow!("New Sheet Name Already exist in the stack"))
         } else {
@@ -662,9 +642,9 @@ impl WorkbookPart {
                 .try_borrow_mut()
                 .context("Failed to pull Sheet Name Collection")?
                 .iter_mut()
-                .find(|item| item.0 == old_sheet_name)
+                .find(|item| item.name == old_sheet_name)
             {
-                record.0 = new_sheet_name.to_string();
+                record.name = new_sheet_name.to_string();
                 Ok(())
             } else {
                 Err(anyhow!("Old Sheet Name not found in the stack"))
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index 1925eb0..f449e82 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -10,6 +10,7 @@ use crate::{
     order_dictionary::EXCEL_ORDER_COLLECTION,
     spreadsheet_2007::{
         models::{CellDataType, CellProperties, ColumnProperties, RowProperties, StyleId},
+        parts::SheetRecord,
         services::CommonServices,
     },
 };
@@ -125,7 +126,7 @@ pub struct WorkSheet {
     xml_document: Weak<RefCell<XmlDocument>>,
     common_service: Weak<RefCell<CommonServices>>,
     workbook_relationship_part: Weak<RefCell<RelationsPart>>,
-    sheet_collection: Weak<RefCell<Vec<(String, String, bool, bool)>>>,
+    sheet_collection: Weak<RefCell<Vec<SheetRecord>>>,
     sheet_relationship_part: Rc<RefCell<RelationsPart>>,
     dimension: Dimension,
     // sheet_property: Option<_>,
@@ -138,7 +139,7 @@ pub struct WorkSheet {
     // merge_cells:Option<_>
     // hyperlinks:Option<_>
     file_path: String,
-    sheet_name: String,
+    sheet_record: SheetRecord,
 }
 
 impl Drop for WorkSheet {
@@ -221,13 +222,15 @@ impl WorkSheet {
     /// Create New object for the group
     pub(crate) fn new(
         office_document: Weak<RefCell<OfficeDocument>>,
-        sheet_collection: Weak<RefCell<Vec<(String, String, bool, bool)>>>,
+        sheet_collection: Weak<RefCell<Vec<SheetRecord>>>,
         workbook_relationship_part: Weak<RefCell<RelationsPart>>,
         common_service: Weak<RefCell<CommonServices>>,
         sheet_name: Option<String>,
+        is_new: bool,
     ) -> AnyResult<Self, AnyError> {
-        let (file_path, sheet_name) = Self::get_sheet_file_name(
+        let (file_path, sheet_record) = Self::get_sheet_file_name(
             sheet_name,
+            is_new,
             &office_document,
             &sheet_collection,
             &workbook_relationship_part,
@@ -261,7 +264,7 @@ impl WorkSheet {
             column_collection,
             sheet_data,
             file_path: file_path.to_string(),
-            sheet_name,
+            sheet_record,
         })
     }
 
@@ -1051,32 +1054,57 @@ fn deserialize_sheet_data(
 impl WorkSheet {
     fn get_sheet_file_name(
         sheet_name: Option<String>,
+        is_new: bool,
         office_document: &Weak<RefCell<OfficeDocument>>,
-        sheet_collection: &Weak<RefCell<Vec<(String, String, bool, bool)>>>,
+        sheet_collection: &Weak<RefCell<Vec<SheetRecord>>>,
         workbook_relationship_part: &Weak<RefCell<RelationsPart>>,
-    ) -> AnyResult<(String, String), AnyError> {
+    ) -> AnyResult<(String, SheetRecord), AnyError> {
         let worksheet_content = EXCEL_TYPE_COLLECTION.get("worksheet").unwrap();
         if let Some(sheet_collection) = sheet_collection.upgrade() {
             if let Some(workbook_relationship_part) = workbook_relationship_part.upgrade() {
-                if let Some(sheet_name) = sheet_name.clone() {
-                    // If the Sheet name already exist get the path of sheet name
-                    if let Some((_, rel_id, _, _)) = sheet_collection
+                let is_name_used = |sheet_name: &str| -> AnyResult<bool, AnyError> {
+                    Ok(sheet_collection
                         .try_borrow()
                         .context("Failed to Get Sheet Collection")?
                         .iter()
-                        .find(|item| item.0 == sheet_name)
-                    {
+                        .any(|item| item.is_same_name(sheet_name)))
+                };
+                if let Some(sheet_name) = &sheet_name {
+                    if is_new {
+                        SheetRecord::validate_name(sheet_name)?;
+                        if is_name_used(sheet_name)? {
+                            return Err(anyhow!("Sheet Name Already exist in the stack"));
+                        }
+                    } else {
+                        // Get the path of existing sheet
+                        let sheet_record = sheet_collection
+                            .try_borrow()
+                            .context("Failed to Get Sheet Collection")?
+                            .iter()
+                            .find(|item| &item.name == sheet_name)
+                            .cloned()
+                            .ok_or(anyhow!("Sheet Name not found in the stack"))?;
                         return Ok((
                             workbook_relationship_part
                                 .try_borrow()
                                 .context("Failed to Get Workbook relationship")?
-                                .get_target_by_id(&rel_id)
+                                .get_target_by_id(&sheet_record.relationship_id)
                                 .context("Failed to Get Target Path")?
                                 .ok_or(anyhow!("Failed to Get Relationship path"))?,
-                            sheet_name,
+                            sheet_record,
                         ));
                     }
                 }
+                // Id of sheets stay as is, get next free id
+                let sheet_id = sheet_collection
+                    .try_borrow()
+                    .context("Failed to pull Sheet Name Collection")?
+                    .iter()
+                    .map(|item| item.sheet_id)
+                    .max()
+                    .unwrap_or(0)
+                    .checked_add(1)
+                    .ok_or(anyhow!("No free sheet id available"))?;
                 let mut sheet_count = sheet_collection
                     .try_borrow()
                     .context("Failed to pull Sheet Name Collection")?
@@ -1102,6 +1130,11 @@ impl WorkSheet {
                         );
                         if document.check_file_exist(RelationsPart::get_relation_path(&file_path))
                             || document.check_file_exist(file_path)
+                            || (sheet_name.is_none()
+                                && is_name_used(&format!(
+                                    "{}{}",
+                                    worksheet_content.default_name, sheet_count
+                                ))?)
                         {
                             sheet_count += 1;
                         } else {
@@ -1129,10 +1162,11 @@ impl WorkSheet {
                         )),
                     )
                     .context("Setting New Calculation Chain Relationship Failed.")?;
+                let sheet_record = SheetRecord::new(sheet_name, relationship_id, sheet_id);
                 sheet_collection
                     .try_borrow_mut()
                     .context("Failed To pull Sheet Collection Handle")?
-                    .push((sheet_name.clone(), relationship_id, false, false));
+                    .push(sheet_record.clone());
                 return Ok((
                     format!(
                         "{}/{}{}.{}",
@@ -1141,7 +1175,7 @@ impl WorkSheet {
                         &sheet_count,
                         worksheet_content.extension
                     ),
-                    sheet_name,
+                    sheet_record,
                 ));
             }
         }
@@ -1384,7 +1418,7 @@ impl WorkSheet {
             sheet_collection
                 .try_borrow_mut()
                 .context("Failed to pull Sheets Collection")?
-                .retain(|item| item.0 != self.sheet_name);
+                .retain(|item| item.relationship_id != self.sheet_record.relationship_id);
         }
         if let Some(workbook_relationship_part) = self.workbook_relationship_part.upgrade() {
             workbook_relationship_part
-- 
2.43.0


From 424f9243dae054ad427b9440625bdc7cb9d62360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 11/30] fix: accept only a cell or column inside the sheet as
 reference

---
 rs/src/utils/converters.rs | 60 +++++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 17 deletions(-)

diff --git a/rs/src/utils/converters.rs b/rs/src/utils/converters.rs
index 57a2509..a9d82b4 100644
--- a/rs/src/utils/converters.rs
+++ b/rs/src/utils/converters.rs
@@ -1,21 +1,55 @@
 use anyhow::{anyhow, Context, Error as AnyError, Ok, Result as AnyResult};
 
+/// Last column of a sheet
+pub(crate) const MAX_COLUMN_INDEX: u16 = 16384;
+/// Last row of a sheet
+pub(crate) const MAX_ROW_INDEX: u32 = 1048576;
+
 pub struct ConverterUtil;
 
 impl ConverterUtil {
     /// Return int Id of the column
     pub fn get_column_index(cell_ref: &str) -> AnyResult<u16, AnyError> {
-        let column_part: String = cell_ref.chars().take_while(|c| c.is_alphabetic()).collect();
-        if column_part.is_empty() {
+        let (column_part, row_part) = Self::split_cell_ref(cell_ref);
+        if !row_part.is_empty() {
+            Self::get_row_index(row_part)?;
+        }
+        Self::get_column_part_index(column_part)
+    }
+
+    /// Split the reference into column and row
+    fn split_cell_ref(cell_ref: &str) -> (&str, &str) {
+        cell_ref.split_at(
+            cell_ref
+                .find(|c: char| !c.is_ascii_alphabetic())
+                .unwrap_or(cell_ref.len()),
+        )
+    }
+
+    fn get_column_part_index(column_part: &str) -> AnyResult<u16, AnyError> {
+        if column_part.is_empty() || column_part.len() > 3 {
             return Err(anyhow!("Failed to Convert to Column Key Id"));
         }
-        let mut index = 0;
-        for (i, c) in column_part.chars().rev().enumerate() {
-            let char_value = c.to_ascii_uppercase() as u16 - 'A' as u16 + 1;
-            index += char_value * 26_usize.pow(i as u32) as u16;
+        let index = column_part.bytes().fold(0, |index: u16, c| {
+            index * 26 + u16::from(c.to_ascii_uppercase() - b'A') + 1
+        });
+        if index > MAX_COLUMN_INDEX {
+            return Err(anyhow!("Column is beyond the last column of the sheet"));
+        }
+        Ok(index)
+    }
+
+    fn get_row_index(row_part: &str) -> AnyResult<u32, AnyError> {
+        if !row_part.bytes().all(|c| c.is_ascii_digit()) {
+            return Err(anyhow!("Failed to Extract Digits"));
+        }
+        let index = row_part.parse().context("Failed to Extract Digits")?;
+        if index == 0 || index > MAX_ROW_INDEX {
+            return Err(anyhow!("Row is not part of the sheet"));
         }
         Ok(index)
     }
+
     /// Return String ref of the column
     pub fn get_column_ref(cell_id: u16) -> AnyResult<String, AnyError> {
         if cell_id == 0 {
@@ -36,9 +70,10 @@ impl ConverterUtil {
 
     /// Return
     pub fn get_cell_index(cell_ref: &str) -> AnyResult<(u32, u16), AnyError> {
+        let (column_part, row_part) = Self::split_cell_ref(cell_ref);
         Ok((
-            Self::extract_digits(cell_ref).context("Failed to extract int key")?,
-            Self::get_column_index(cell_ref).context("Failed to Convert to int key")?,
+            Self::get_row_index(row_part).context("Failed to extract int key")?,
+            Self::get_column_part_index(column_part).context("Failed to Convert to int key")?,
         ))
     }
 
@@ -64,13 +99,4 @@ impl ConverterUtil {
             _ => false,
         }
     }
-
-    fn extract_digits(input: &str) -> AnyResult<u32> {
-        input
-            .chars()
-            .filter(|c| c.is_digit(10))
-            .collect::<String>()
-            .parse()
-            .context("Failed to Extract Digits")
-    }
 }
-- 
2.43.0


From 2e4238d9eab9359af9548a7f4e6a7766e3c8a9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 12/30] fix: keep calculation chain entries and drop those of a
 deleted sheet

---
 .../spreadsheet_2007/parts/worksheet.rs       |   7 ++
 .../services/calculation_chain.rs             | 107 ++++++++++++------
 .../services/common_service.rs                |  13 +++
 3 files changed, 91 insertions(+), 36 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index f449e82..fd6a7f9 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1426,6 +1426,13 @@ impl WorkSheet {
                 .context("Failed to pull workbook relationship handle")?
                 .delete_relationship_mut(&self.file_path);
         }
+        if let Some(common_service) = self.common_service.upgrade() {
+            common_service
+                .try_borrow_mut()
+                .context("Failed to pull common service handle")?
+                .delete_calculation_mut(self.sheet_record.sheet_id, None)
+                .context("Failed to remove calculation of the sheet")?;
+        }
         if let Some(xml_tree) = self.office_document.upgrade() {
             let mut office_document = xml_tree
                 .try_borrow_mut()
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs b/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
index c8aeb8f..640d5fa 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
@@ -7,13 +7,16 @@ use crate::{
     global_2007::traits::XmlDocumentPart,
 };
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
-use std::{cell::RefCell, collections::HashMap, rc::Weak};
+use std::{
+    cell::RefCell,
+    collections::{HashMap, HashSet},
+    rc::Weak,
+};
 
 #[derive(Debug)]
 pub struct CalculationChainPart {
     office_document: Weak<RefCell<OfficeDocument>>,
     parent_relationship_part: Weak<RefCell<RelationsPart>>,
-    calculation_collection: Vec<(String, String, Option<String>)>,
     xml_document: Weak<RefCell<XmlDocument>>,
     file_path: String,
 }
@@ -32,21 +35,18 @@ impl XmlDocumentPartCommon for CalculationChainPart {
         log_elapsed!(
             || {
                 if let Some(office_doc_ref) = self.office_document.upgrade() {
-                    if self.calculation_collection.len() > 0 {
-                        if let Some(xml_document) = self.xml_document.upgrade() {
-                            let mut xml_doc_mut = xml_document
-                                .try_borrow_mut()
-                                .context("Failed to pull document handle")?;
-                            for (cell_key, sheet_id, _l) in self.calculation_collection.to_owned() {
-                                let mut attributes = HashMap::new();
-                                attributes.insert("r".to_string(), cell_key);
-                                attributes.insert("i".to_string(), sheet_id);
-                                xml_doc_mut
-                                    .append_child_mut("c", None)
-                                    .context("Failed To Add Child Item")?
-                                    .set_attribute_mut(attributes)?;
-                            }
-                        }
+                    let is_empty = self
+                        .xml_document
+                        .upgrade()
+                        .map(|xml_document| {
+                            xml_document
+                                .try_borrow()
+                                .context("Failed to pull document handle")
+                                .map(|xml_doc| xml_doc.get_element_ids_by_tag("c", None).is_none())
+                        })
+                        .transpose()?
+                        .unwrap_or(false);
+                    if !is_empty {
                         office_doc_ref
                             .try_borrow_mut()
                             .context("Failed to Borrow Share Tree")?
@@ -105,13 +105,10 @@ impl XmlDocumentPart for CalculationChainPart {
         let file_name = Self::get_calc_chain_file_name(&parent_relationship_part)
             .context("Failed to pull calc chain file name")?
             .to_string();
-        let mut xml_document = Self::get_xml_document(&office_document, &file_name)?;
-        let calculation_collection = Self::load_content_to_database(&mut xml_document)
-            .context("Load Calculation Chain To DB Failed")?;
+        let xml_document = Self::get_xml_document(&office_document, &file_name)?;
         Ok(Self {
             office_document,
             parent_relationship_part,
-            calculation_collection,
             xml_document,
             file_path: file_name,
         })
@@ -138,26 +135,64 @@ impl CalculationChainPart {
             Err(anyhow!("Failed to upgrade relation part"))
         }
     }
-    fn load_content_to_database(
-        xml_document: &mut Weak<RefCell<XmlDocument>>,
-    ) -> AnyResult<Vec<(String, String, Option<String>)>, AnyError> {
-        let mut calculation_collection = Vec::new();
-        if let Some(xml_document) = xml_document.upgrade() {
+}
+
+impl CalculationChainPart {
+    /// Remove the entries of the sheet, only the ones of the cells if provided
+    pub(crate) fn delete_calculation_mut(
+        &mut self,
+        sheet_id: u32,
+        cell_refs: Option<&HashSet<String>>,
+    ) -> AnyResult<(), AnyError> {
+        if let Some(xml_document) = self.xml_document.upgrade() {
             let mut xml_doc_mut = xml_document
                 .try_borrow_mut()
-                .context("xml doc borrow failed")?;
-            if let Some(elements) = xml_doc_mut.pop_elements_by_tag_mut("c", None) {
-                for element in elements {
-                    if let Some(attributes) = element.get_attribute() {
-                        calculation_collection.push((
-                            attributes["r"].clone(),
-                            attributes["i"].clone(),
-                            attributes.get("l").cloned(),
-                        ));
+                .context("Failed to pull document handle")?;
+            let mut current_sheet_id: Option<String> = None;
+            let mut is_changed = false;
+            let mut retained_ids = Vec::new();
+            let child_ids = xml_doc_mut
+                .get_root()
+                .map(|item| item.get_child_ids())
+                .unwrap_or_default();
+            for child_id in child_ids {
+                if let Some(element) = xml_doc_mut.get_element_mut(&child_id) {
+                    if element.get_tag() == "c" {
+                        let mut attributes = element.get_attribute().cloned().unwrap_or_default();
+                        // Sheet of the previous entry is valid till next sheet is provided
+                        let has_sheet_id = attributes.contains_key("i");
+                        if let Some(entry_sheet_id) = attributes.get("i") {
+                            current_sheet_id = Some(entry_sheet_id.clone());
+                        }
+                        if current_sheet_id
+                            .as_ref()
+                            .and_then(|item| item.trim().parse::<u32>().ok())
+                            == Some(sheet_id)
+                            && cell_refs.map_or(true, |cell_refs| {
+                                attributes
+                                    .get("r")
+                                    .is_some_and(|item| cell_refs.contains(item.as_str()))
+                            })
+                        {
+                            is_changed = true;
+                            continue;
+                        }
+                        if is_changed && !has_sheet_id {
+                            if let Some(current_sheet_id) = &current_sheet_id {
+                                attributes.insert("i".to_string(), current_sheet_id.clone());
+                                element
+                                    .set_attribute_mut(attributes)
+                                    .context("Failed to set calculation sheet id")?;
+                            }
+                        }
                     }
                 }
+                retained_ids.push(child_id);
+            }
+            if is_changed {
+                xml_doc_mut.set_child_ids_mut(&0, &retained_ids);
             }
         }
-        Ok(calculation_collection)
+        Ok(())
     }
 }
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/common_service.rs b/rs/src/spreadsheet/spreadsheet_2007/services/common_service.rs
index 38bb913..4fe5318 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/common_service.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/common_service.rs
@@ -2,6 +2,7 @@ use crate::global_2007::traits::XmlDocumentPartCommon;
 use crate::spreadsheet_2007::models::{StyleId, StyleSetting};
 use crate::spreadsheet_2007::services::{CalculationChainPart, ShareStringPart, StylePart};
 use anyhow::{Context, Error as AnyError, Result as AnyResult};
+use std::collections::HashSet;
 
 #[derive(Debug)]
 pub(crate) struct CommonServices {
@@ -36,6 +37,18 @@ impl CommonServices {
     }
 }
 
+// ########################### Calculation Chain ########################
+impl CommonServices {
+    pub(crate) fn delete_calculation_mut(
+        &mut self,
+        sheet_id: u32,
+        cell_refs: Option<&HashSet<String>>,
+    ) -> AnyResult<(), AnyError> {
+        self.calculation_chain
+            .delete_calculation_mut(sheet_id, cell_refs)
+    }
+}
+
 // ########################### Share String ########################
 impl CommonServices {
     pub(crate) fn get_string_id_mut(&mut self, value: String) -> AnyResult<String, AnyError> {
-- 
2.43.0


From 7a000673c3a63c00255bfcef11d5c7e6fa3ecaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 13/30] fix: keep rows, cells, columns and views of a worksheet
 that are not edited

---
 rs/src/files/xml/xml_tree.rs                  |   10 +
 .../spreadsheet_2007/parts/worksheet.rs       | 1517 ++++++-----------
 2 files changed, 570 insertions(+), 957 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 2c9ee7e..616f985 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -153,6 +153,16 @@ impl XmlDocument {
         }
     }
 
+    /// Remove the element along with all its descendants from collection
+    pub(crate) fn pop_element_tree_mut(&mut self, element_id: &usize) {
+        let mut pending_ids = vec![*element_id];
+        while let Some(current_id) = pending_ids.pop() {
+            if let Some(element) = self.xml_element_collection.remove(&current_id) {
+                pending_ids.extend(element.get_child_ids());
+            }
+        }
+    }
+
     pub(crate) fn pop_element_mut(&mut self, element_id: &usize) -> Option<XmlElement> {
         self.xml_element_collection.remove(element_id)
     }
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index fd6a7f9..c88d910 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -1,7 +1,7 @@
 use crate::{
-    converters::ConverterUtil,
+    converters::{ConverterUtil, MAX_COLUMN_INDEX, MAX_ROW_INDEX},
     element_dictionary::EXCEL_TYPE_COLLECTION,
-    files::{OfficeDocument, XmlDocument, XmlSerializer},
+    files::{is_xml_char, OfficeDocument, XmlDocument, XmlSerializer},
     global_2007::{
         parts::RelationsPart,
         traits::{Enum, XmlDocumentPartCommon},
@@ -9,7 +9,7 @@ use crate::{
     log_elapsed,
     order_dictionary::EXCEL_ORDER_COLLECTION,
     spreadsheet_2007::{
-        models::{CellDataType, CellProperties, ColumnProperties, RowProperties, StyleId},
+        models::{CellDataType, CellProperties, ColumnProperties, RowProperties},
         parts::SheetRecord,
         services::CommonServices,
     },
@@ -18,108 +18,36 @@ use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
     cmp::{max, min},
-    collections::{BTreeMap, HashMap, VecDeque},
+    collections::{BTreeMap, HashMap, HashSet},
+    mem::take,
     rc::{Rc, Weak},
 };
 
 #[derive(Debug)]
-pub(crate) struct RowData {
-    row_record: RowProperties,
-    cell_records: Option<BTreeMap<u16, CellProperties>>,
-}
-
-#[derive(Debug)]
-pub(crate) struct Dimension {
-    start_col: u16,
-    end_col: u16,
-}
-
-impl Default for Dimension {
-    fn default() -> Self {
-        Self {
-            start_col: 16384,
-            end_col: 1,
-        }
-    }
-}
-
-#[derive(Debug)]
-pub(crate) struct WorkSheetViewSelection {
-    pane: Option<String>,
-    active_cell: Option<String>,
-    active_cell_id: Option<String>,
-    sq_ref: Option<String>,
+pub(crate) enum CellRecord {
+    /// Element Id of the cell as it is in the source
+    Source(usize),
+    /// Cell that is set by the user
+    Updated(CellProperties),
 }
 
-#[derive(Debug)]
-pub(crate) struct WorkSheetView {
-    selection_collection: Option<Vec<WorkSheetViewSelection>>,
-    workbook_view_id: String,
-    default_grid_color: Option<bool>,
-    view_right_to_left: Option<bool>,
-    show_formula_bar: Option<bool>,
-    show_grid_line: Option<bool>,
-    show_outline_symbol: Option<bool>,
-    show_row_col_header: Option<bool>,
-    show_ruler: Option<bool>,
-    show_white_space: Option<bool>,
-    show_zero: Option<bool>,
-    tab_selected: Option<bool>,
-    top_left_cell: Option<String>,
-    view: Option<String>,
-    window_protection: Option<bool>,
-    zoom_scale: Option<i16>,
-    zoom_scale_normal: Option<i16>,
-    zoom_scale_page_layout: Option<i16>,
-    zoom_scale_sheet_layout: Option<i16>,
-}
-
-impl Default for WorkSheetView {
-    fn default() -> Self {
-        Self {
-            workbook_view_id: "0".to_string(),
-            selection_collection: None,
-            default_grid_color: None,
-            view_right_to_left: None,
-            show_formula_bar: None,
-            show_grid_line: None,
-            show_outline_symbol: None,
-            show_row_col_header: None,
-            show_ruler: None,
-            show_white_space: None,
-            show_zero: None,
-            tab_selected: None,
-            top_left_cell: None,
-            view: None,
-            window_protection: None,
-            zoom_scale: None,
-            zoom_scale_normal: None,
-            zoom_scale_page_layout: None,
-            zoom_scale_sheet_layout: None,
-        }
-    }
-}
-
-#[derive(Debug)]
-pub(crate) struct WorkSheetViews {
-    view_collection: Vec<WorkSheetView>,
+#[derive(Debug, Default)]
+pub(crate) struct RowData {
+    /// Element Id of the row in the source
+    element_id: Option<usize>,
+    /// Row properties set by the user
+    row_record: Option<RowProperties>,
+    cell_records: BTreeMap<u16, CellRecord>,
+    is_cell_updated: bool,
 }
 
-impl Default for WorkSheetViews {
-    fn default() -> Self {
-        Self {
-            view_collection: vec![WorkSheetView::default()],
-        }
-    }
+/// Columns of same properties
+#[derive(Debug, Clone)]
+pub(crate) struct ColumnRange {
+    max: u16,
+    attributes: HashMap<String, String>,
 }
 
-type WorkSheetContent = (
-    Option<VecDeque<ColumnProperties>>,
-    Option<BTreeMap<u32, RowData>>,
-    WorkSheetViews,
-    Dimension,
-);
-
 #[derive(Debug)]
 pub struct WorkSheet {
     office_document: Weak<RefCell<OfficeDocument>>,
@@ -128,12 +56,13 @@ pub struct WorkSheet {
     workbook_relationship_part: Weak<RefCell<RelationsPart>>,
     sheet_collection: Weak<RefCell<Vec<SheetRecord>>>,
     sheet_relationship_part: Rc<RefCell<RelationsPart>>,
-    dimension: Dimension,
     // sheet_property: Option<_>,
-    sheet_views: WorkSheetViews,
     // sheet_format_property: Option<_>,
-    column_collection: Option<VecDeque<ColumnProperties>>,
-    sheet_data: Option<BTreeMap<u32, RowData>>,
+    /// Key : First column -> Value : Column range. Loaded only if columns are updated
+    column_collection: Option<BTreeMap<u16, ColumnRange>>,
+    sheet_data: BTreeMap<u32, RowData>,
+    /// Formula cells of source that are replaced
+    replaced_formula: HashSet<String>,
     // sheet_calculation_property:Option<_>
     // protected_range:Option<_>
     // merge_cells:Option<_>
@@ -187,8 +116,6 @@ impl XmlDocumentPartCommon for WorkSheet {
                         log_elapsed!(self.serialize_dimension(&mut xml_doc_mut))?;
                         // Add Cols Record to Document
                         log_elapsed!(self.serialize_cols(&mut xml_doc_mut))?;
-                        // Add Sheet Views to Document
-                        log_elapsed!(self.serialize_sheet_views(&mut xml_doc_mut))?;
                         // Add Sheet Data to Document
                         log_elapsed!(self.serialize_sheet_data(&mut xml_doc_mut))?;
                         if let Some(root_element) = xml_doc_mut.get_root_mut() {
@@ -201,6 +128,19 @@ impl XmlDocumentPartCommon for WorkSheet {
                                 .context("Failed Reorder the element child's"))?;
                         }
                     }
+                    if !self.replaced_formula.is_empty() {
+                        if let Some(common_service) = self.common_service.upgrade() {
+                            common_service
+                                .try_borrow_mut()
+                                .context("Failed to pull common service handle")?
+                                .delete_calculation_mut(
+                                    self.sheet_record.sheet_id,
+                                    Some(&self.replaced_formula),
+                                )
+                                .context("Failed to remove replaced calculation")?;
+                        }
+                        self.replaced_formula.clear();
+                    }
                     log_elapsed!(
                         || {
                             office_doc_mut
@@ -238,31 +178,29 @@ impl WorkSheet {
         .context("Failed to pull calc chain file name")?;
         let xml_document = Self::get_xml_document(&office_document, &file_path)?;
         let loaded_content = Self::load_content(&office_document, &xml_document, &file_path);
-        let (sheet_relationship_part, (column_collection, sheet_data, sheet_views, dimension)) =
-            match loaded_content {
-                Ok(loaded_content) => loaded_content,
-                Err(error) => {
-                    // Release the part so that it stays as it was in the source
-                    if let Some(office_document) = office_document.upgrade() {
-                        office_document
-                            .try_borrow_mut()
-                            .context("Failed to pull office document")?
-                            .discard_xml_document(&file_path);
-                    }
-                    return Err(error);
+        let (sheet_relationship_part, sheet_data) = match loaded_content {
+            Ok(loaded_content) => loaded_content,
+            Err(error) => {
+                // Release the part so that it stays as it was in the source
+                if let Some(office_document) = office_document.upgrade() {
+                    office_document
+                        .try_borrow_mut()
+                        .context("Failed to pull office document")?
+                        .discard_xml_document(&file_path);
                 }
-            };
+                return Err(error);
+            }
+        };
         Ok(Self {
             office_document,
             xml_document,
             common_service,
             workbook_relationship_part,
             sheet_relationship_part,
-            dimension,
-            sheet_views,
             sheet_collection,
-            column_collection,
+            column_collection: None,
             sheet_data,
+            replaced_formula: HashSet::new(),
             file_path: file_path.to_string(),
             sheet_record,
         })
@@ -272,7 +210,7 @@ impl WorkSheet {
         office_document: &Weak<RefCell<OfficeDocument>>,
         xml_document: &Weak<RefCell<XmlDocument>>,
         file_path: &str,
-    ) -> AnyResult<(Rc<RefCell<RelationsPart>>, WorkSheetContent), AnyError> {
+    ) -> AnyResult<(Rc<RefCell<RelationsPart>>, BTreeMap<u32, RowData>), AnyError> {
         let worksheet_content = log_elapsed!(
             || { Self::initialize_worksheet(xml_document).context("Failed to open Worksheet") },
             "Worksheet Initialize Time"
@@ -290,765 +228,428 @@ impl WorkSheet {
 
     fn initialize_worksheet(
         xml_document: &Weak<RefCell<XmlDocument>>,
-    ) -> AnyResult<WorkSheetContent, AnyError> {
+    ) -> AnyResult<BTreeMap<u32, RowData>, AnyError> {
         if let Some(xml_document) = xml_document.upgrade() {
             let mut xml_doc_mut = xml_document
                 .try_borrow_mut()
                 .context("Failed to get XML doc handle")?;
-            // unwrap dimension
-            xml_doc_mut.pop_elements_by_tag_mut("dimension", None);
-            // unwrap columns to local collection
-            let column_collection = log_elapsed!(
-                || { deserialize_cols(&mut xml_doc_mut).context("Failed To Deserialize Cols") },
-                "Column deserialize"
-            )?;
-            // unwrap sheet data into database
-            let (sheet_data, dimension) = log_elapsed!(
+            if xml_doc_mut.get_root().map(|item| item.get_tag()) != Some("worksheet") {
+                return Err(anyhow!("Only the cells of a worksheet can be handled"));
+            }
+            log_elapsed!(
                 || {
                     deserialize_sheet_data(&mut xml_doc_mut)
                         .context("Failed To Deserialize Sheet Data")
                 },
                 "Sheet Data Deserialize"
-            )?;
-            let worksheet_views = log_elapsed!(
-                || {
-                    deserialize_worksheet_views(&mut xml_doc_mut)
-                        .context("Failed to deserialize Worksheet View")
-                },
-                "Worksheet View Deserialization"
-            )?;
-            Ok((column_collection, sheet_data, worksheet_views, dimension))
+            )
         } else {
-            Ok((None, None, WorkSheetViews::default(), Dimension::default()))
+            Ok(BTreeMap::new())
         }
     }
 
     fn serialize_dimension(&mut self, xml_doc_mut: &mut XmlDocument) -> Result<(), AnyError> {
-        fn set_default(xml_doc_mut: &mut XmlDocument) -> AnyResult<(), AnyError> {
-            let mut dimension_attribute = HashMap::new();
-            dimension_attribute.insert("ref".to_string(), "A1".to_string());
-            xml_doc_mut
-                .append_child_mut("dimension", None)
-                .context("Failed to Add Dimension node to worksheet")?
-                .set_attribute_mut(dimension_attribute)
-                .context("Failed to set attribute value to dimension")?;
-            Ok(())
-        }
-        if let Some(sheet_data) = self.sheet_data.as_ref() {
-            if let Some(first_item) = sheet_data.first_key_value() {
-                let mut dimension_attribute = HashMap::new();
-                dimension_attribute.insert(
-                    "ref".to_string(),
-                    format!(
-                        "{}{}:{}{}",
-                        ConverterUtil::get_column_ref(self.dimension.start_col)
-                            .context("Failed to convert dim col start")?,
-                        first_item.0,
-                        ConverterUtil::get_column_ref(self.dimension.end_col)
-                            .context("Failed to convert dim col end")?,
-                        if let Some(row_end) = sheet_data.last_key_value() {
-                            row_end.0
-                        } else {
-                            first_item.0
-                        }
-                    ),
-                );
-                xml_doc_mut
-                    .append_child_mut("dimension", None)
-                    .context("Failed to Add Dimension node to worksheet")?
-                    .set_attribute_mut(dimension_attribute)
-                    .context("Failed to set attribute value to dimension")?;
-            } else {
-                set_default(xml_doc_mut)?;
+        let mut rows = self
+            .sheet_data
+            .iter()
+            .filter(|(_, row)| !row.cell_records.is_empty())
+            .map(|(row_index, _)| row_index);
+        let range = if let Some(start_row) = rows.next() {
+            let end_row = rows.next_back().unwrap_or(start_row);
+            let mut start_col = MAX_COLUMN_INDEX;
+            let mut end_col = 1;
+            for row in self.sheet_data.values() {
+                if let (Some((first, _)), Some((last, _))) = (
+                    row.cell_records.first_key_value(),
+                    row.cell_records.last_key_value(),
+                ) {
+                    start_col = min(start_col, *first);
+                    end_col = max(end_col, *last);
+                }
             }
+            format!(
+                "{}{}:{}{}",
+                ConverterUtil::get_column_ref(start_col)
+                    .context("Failed to convert dim col start")?,
+                start_row,
+                ConverterUtil::get_column_ref(end_col).context("Failed to convert dim col end")?,
+                end_row
+            )
         } else {
-            set_default(xml_doc_mut)?;
-        }
+            "A1".to_string()
+        };
+        let dimension = match xml_doc_mut
+            .get_element_ids_by_tag("dimension", None)
+            .and_then(|item| item.first().copied())
+        {
+            Some(dimension_id) => xml_doc_mut
+                .get_element_mut(&dimension_id)
+                .ok_or(anyhow!("Dimension Element Not Found"))?,
+            None => xml_doc_mut
+                .insert_child_at_mut("dimension", &0, None)
+                .context("Failed to Add Dimension node to worksheet")?,
+        };
+        let mut dimension_attribute = dimension.get_attribute().cloned().unwrap_or_default();
+        dimension_attribute.insert("ref".to_string(), range);
+        dimension
+            .set_attribute_mut(dimension_attribute)
+            .context("Failed to set attribute value to dimension")?;
         Ok(())
     }
 
     fn serialize_cols(&mut self, xml_doc_mut: &mut XmlDocument) -> AnyResult<(), AnyError> {
-        if let Some(mut column_collection) = self.column_collection.take() {
-            if column_collection.len() > 0 {
-                let cols_id = xml_doc_mut
-                    .insert_children_after_tag_mut("cols", "sheetFormatPr", None)
-                    .context("Failed to Insert Cols Element")?
-                    .get_id();
-                loop {
-                    if let Some(item) = column_collection.pop_front() {
-                        let mut attribute = HashMap::new();
-                        attribute.insert("min".to_string(), item.min.to_string());
-                        attribute.insert("max".to_string(), item.max.to_string());
-                        if let Some(width) = item.width {
-                            attribute.insert("customWidth".to_string(), "1".to_string());
-                            attribute.insert("width".to_string(), width.to_string());
-                        }
-                        if let Some(style_id) = item.style_id {
-                            attribute.insert("style".to_string(), style_id.id.to_string());
-                        }
-                        if let Some(_) = item.hidden {
-                            attribute.insert("hidden".to_string(), "1".to_string());
-                        }
-                        if let Some(_) = item.best_fit {
-                            attribute.insert("bestFit".to_string(), "1".to_string());
-                        }
-                        xml_doc_mut
-                            .append_child_mut("col", Some(&cols_id))
-                            .context("Failed to insert col record")?
-                            .set_attribute_mut(attribute)
-                            .context("Failed to Add Attribute to col element")?;
-                    } else {
-                        break;
-                    }
-                }
+        if let Some(column_collection) = self.column_collection.take() {
+            let mut cols_ids = xml_doc_mut
+                .get_element_ids_by_tag("cols", None)
+                .unwrap_or_default();
+            if column_collection.is_empty() || cols_ids.len() > 1 {
+                xml_doc_mut.pop_elements_by_tag_mut("cols", None);
+                cols_ids.clear();
             }
-        }
-        Ok(())
-    }
-
-    fn serialize_sheet_views(&mut self, xml_doc_mut: &mut XmlDocument) -> AnyResult<(), AnyError> {
-        let sheet_views_id = xml_doc_mut
-            .insert_children_after_tag_mut("sheetViews", "dimension", None)
-            .context("Failed to Insert Sheet Views Element")?
-            .get_id();
-        loop {
-            if let Some(sheet_view) = self.sheet_views.view_collection.pop() {
-                let mut attribute: HashMap<String, String> = HashMap::new();
-                attribute.insert("workbookViewId".to_string(), sheet_view.workbook_view_id);
-                if let Some(window_protection) = sheet_view.window_protection {
-                    attribute.insert(
-                        "windowProtection".to_string(),
-                        ConverterUtil::bool_xml_flag(&window_protection),
-                    );
-                }
-                if let Some(show_formula_bar) = sheet_view.show_formula_bar {
-                    attribute.insert(
-                        "showFormulas".to_string(),
-                        ConverterUtil::bool_xml_flag(&show_formula_bar),
-                    );
-                }
-                if let Some(show_grid_line) = sheet_view.show_grid_line {
-                    attribute.insert(
-                        "showGridLines".to_string(),
-                        ConverterUtil::bool_xml_flag(&show_grid_line),
-                    );
-                }
-                if let Some(show_row_col_header) = sheet_view.show_row_col_header {
-                    attribute.insert(
-                        "showRowColHeaders".to_string(),
-                        ConverterUtil::bool_xml_flag(&show_row_col_header),
-                    );
-                }
-                if let Some(show_zero) = sheet_view.show_zero {
-                    attribute.insert(
-                        "showZeros".to_string(),
-                        ConverterUtil::bool_xml_flag(&show_zero),
-                    );
-                }
-                if let Some(view_right_to_left) = sheet_view.view_right_to_left {
-                    attribute.insert(
-                        "rightToLeft".to_string(),
-                        ConverterUtil::bool_xml_flag(&view_right_to_left),
-                    );
-                }
-                if let Some(tab_selected) = sheet_view.tab_selected {
-                    attribute.insert(
-                        "tabSelected".to_string(),
-                        ConverterUtil::bool_xml_flag(&tab_selected),
-                    );
-                }
-                if let Some(show_ruler) = sheet_view.show_ruler {
-                    attribute.insert(
-                        "showRuler".to_string(),
-                        ConverterUtil::bool_xml_flag(&show_ruler),
-                    );
-                }
-                if let Some(show_white_space) = sheet_view.show_white_space {
-                    attribute.insert(
-                        "showWhiteSpace".to_string(),
-                        ConverterUtil::bool_xml_flag(&show_white_space),
-                    );
-                }
-                if let Some(show_outline_symbol) = sheet_view.show_outline_symbol {
-                    attribute.insert(
-                        "showOutlineSymbols".to_string(),
-                        ConverterUtil::bool_xml_flag(&show_outline_symbol),
-                    );
-                }
-                if let Some(default_grid_color) = sheet_view.default_grid_color {
-                    attribute.insert(
-                        "defaultGridColor".to_string(),
-                        ConverterUtil::bool_xml_flag(&default_grid_color),
-                    );
-                }
-                if let Some(top_left_cell) = sheet_view.top_left_cell {
-                    attribute.insert("topLeftCell".to_string(), top_left_cell);
-                }
-                if let Some(view) = sheet_view.view {
-                    attribute.insert("view".to_string(), view);
-                }
-                if let Some(zoom_scale) = sheet_view.zoom_scale {
-                    attribute.insert("zoomScale".to_string(), zoom_scale.to_string());
-                }
-                if let Some(zoom_scale_normal) = sheet_view.zoom_scale_normal {
-                    attribute.insert("zoomScaleNormal".to_string(), zoom_scale_normal.to_string());
-                }
-                if let Some(zoom_scale_sheet_layout) = sheet_view.zoom_scale_sheet_layout {
-                    attribute.insert(
-                        "zoomScaleSheetLayoutView".to_string(),
-                        zoom_scale_sheet_layout.to_string(),
-                    );
-                }
-                if let Some(zoom_scale_page_layout) = sheet_view.zoom_scale_page_layout {
-                    attribute.insert(
-                        "zoomScalePageLayoutView".to_string(),
-                        zoom_scale_page_layout.to_string(),
-                    );
+            if !column_collection.is_empty() {
+                let cols_id = match cols_ids.first() {
+                    Some(cols_id) => *cols_id,
+                    None => xml_doc_mut
+                        .insert_child_at_mut("cols", &0, None)
+                        .context("Failed to Insert Cols Element")?
+                        .get_id(),
+                };
+                xml_doc_mut.set_child_ids_mut(&cols_id, &[]);
+                for (min, item) in column_collection {
+                    let mut attribute = item.attributes;
+                    attribute.insert("min".to_string(), min.to_string());
+                    attribute.insert("max".to_string(), item.max.to_string());
+                    xml_doc_mut
+                        .append_child_mut("col", Some(&cols_id))
+                        .context("Failed to insert col record")?
+                        .set_attribute_mut(attribute)
+                        .context("Failed to Add Attribute to col element")?;
                 }
-                xml_doc_mut
-                    .append_child_mut("sheetView", Some(&sheet_views_id))
-                    .context("Failed to insert sheetView record")?
-                    .set_attribute_mut(attribute)
-                    .context("Failed to Add Attribute to sheetView element")?;
-            } else {
-                break;
             }
         }
         Ok(())
     }
 
     fn serialize_sheet_data(&mut self, xml_doc_mut: &mut XmlDocument) -> AnyResult<(), AnyError> {
-        if let Some(sheet_data) = self.sheet_data.take() {
-            let sheet_data_id = xml_doc_mut
-                .insert_children_after_tag_mut("sheetData", "cols", None)
-                .context("Failed to Insert Cols Element")?
-                .get_id();
-            for (row_index, db_row) in sheet_data {
-                let row_element = xml_doc_mut
+        let sheet_data_id = match xml_doc_mut
+            .get_element_ids_by_tag("sheetData", None)
+            .and_then(|item| item.first().copied())
+        {
+            Some(sheet_data_id) => sheet_data_id,
+            None => xml_doc_mut
+                .insert_child_at_mut("sheetData", &0, None)
+                .context("Failed to Insert Sheet Data Element")?
+                .get_id(),
+        };
+        let mut row_ids = Vec::with_capacity(self.sheet_data.len());
+        for (row_index, db_row) in take(&mut self.sheet_data) {
+            let row_element_id = match db_row.element_id {
+                Some(element_id) => element_id,
+                None => xml_doc_mut
                     .append_child_mut("row", Some(&sheet_data_id))
-                    .context("Failed to insert row element")?;
-                let row_element_id = row_element.get_id();
-                let mut row_attribute = HashMap::new();
-                row_attribute.insert("r".to_string(), row_index.to_string());
-                if let Some(row_span) = db_row.row_record.span {
-                    row_attribute.insert("spans".to_string(), row_span);
-                }
-                if let Some(row_style_id) = db_row.row_record.style_id {
-                    row_attribute.insert("customFormat".to_string(), "1".to_string());
-                    row_attribute.insert("s".to_string(), row_style_id.id.to_string());
-                }
-                if let Some(row_height) = db_row.row_record.height {
-                    row_attribute.insert("customHeight".to_string(), "1".to_string());
-                    row_attribute.insert("ht".to_string(), row_height.to_string());
-                }
-                if let Some(_) = db_row.row_record.hidden {
-                    row_attribute.insert("hidden".to_string(), "1".to_string());
-                }
-                if let Some(row_group_level) = db_row.row_record.group_level {
-                    row_attribute.insert("outlineLevel".to_string(), row_group_level.to_string());
-                }
-                if let Some(_) = db_row.row_record.collapsed {
-                    row_attribute.insert("collapsed".to_string(), "1".to_string());
-                }
-                if let Some(_) = db_row.row_record.thick_top {
-                    row_attribute.insert("thickTop".to_string(), "1".to_string());
-                }
-                if let Some(_) = db_row.row_record.thick_bottom {
-                    row_attribute.insert("thickBot".to_string(), "1".to_string());
-                }
-                if let Some(_) = db_row.row_record.place_holder {
-                    row_attribute.insert("ph".to_string(), "1".to_string());
-                }
-                row_element
-                    .set_attribute_mut(row_attribute)
-                    .context("Failed to set attribute for row")?;
-                if let Some(cols) = db_row.cell_records {
-                    for (col_index, cell_record) in cols {
-                        // Create cell element
-                        let cell_element = xml_doc_mut
-                            .append_child_mut("c", Some(&row_element_id))
-                            .context("Failed to insert row element")?;
-                        let cell_id = cell_element.get_id();
-                        let mut cell_attribute = HashMap::new();
-                        cell_attribute.insert(
-                            "r".to_string(),
+                    .context("Failed to insert row element")?
+                    .get_id(),
+            };
+            row_ids.push(row_element_id);
+            let row_element = xml_doc_mut
+                .get_element_mut(&row_element_id)
+                .ok_or(anyhow!("Row Element Not Found"))?;
+            let mut row_attribute = row_element.get_attribute().cloned().unwrap_or_default();
+            row_attribute.insert("r".to_string(), row_index.to_string());
+            if db_row.is_cell_updated {
+                // Optional hint that is no more valid
+                row_attribute.remove("spans");
+            }
+            if let Some(row_record) = db_row.row_record {
+                serialize_row_properties(row_record, &mut row_attribute);
+            }
+            row_element
+                .set_attribute_mut(row_attribute)
+                .context("Failed to set attribute for row")?;
+            if db_row.is_cell_updated {
+                let other_ids = row_element
+                    .get_child_ids()
+                    .into_iter()
+                    .filter(|child_id| {
+                        xml_doc_mut
+                            .get_element(child_id)
+                            .is_some_and(|item| item.get_tag() != "c")
+                    })
+                    .collect::<Vec<usize>>();
+                let mut child_ids = Vec::with_capacity(db_row.cell_records.len());
+                for (col_index, cell_record) in db_row.cell_records {
+                    child_ids.push(match cell_record {
+                        CellRecord::Source(element_id) => element_id,
+                        CellRecord::Updated(cell_record) => serialize_cell(
+                            xml_doc_mut,
+                            &row_element_id,
                             format!(
                                 "{}{}",
                                 ConverterUtil::get_column_ref(col_index)
                                     .context("Failed to get Char Id from Int")?,
                                 row_index
                             ),
-                        );
-                        if let Some(cell_style_id) = cell_record.style_id {
-                            cell_attribute.insert("s".to_string(), cell_style_id.id.to_string());
-                        }
-                        if cell_record.data_type != CellDataType::Number {
-                            cell_attribute.insert(
-                                "t".to_string(),
-                                CellDataType::get_string(cell_record.data_type),
-                            );
-                        }
-                        if let Some(cell_comment_id) = cell_record.comment_id {
-                            cell_attribute.insert("cm".to_string(), cell_comment_id.to_string());
-                        }
-                        if let Some(cell_metadata) = cell_record.metadata {
-                            cell_attribute.insert("vm".to_string(), cell_metadata.to_string());
-                        }
-                        if let Some(_) = cell_record.place_holder {
-                            cell_attribute.insert("ph".to_string(), "1".to_string());
-                        }
-                        cell_element
-                            .set_attribute_mut(cell_attribute)
-                            .context("Failed to Set Attribute for cell")?;
-                        // Create cell's child element
-                        match cell_record.data_type {
-                            CellDataType::InlineString => {
-                                let inline_string_id = xml_doc_mut
-                                    .append_child_mut("is", Some(&cell_id))
-                                    .context("Failed to insert Inline string element")?
-                                    .get_id();
-                                let text_element = xml_doc_mut
-                                    .append_child_mut("t", Some(&inline_string_id))
-                                    .context("Failed To insert Text Value to inline string")?;
-                                text_element.set_preserved_value_mut(
-                                    if let Some(value) = cell_record.value {
-                                        value
-                                    } else {
-                                        "".to_string()
-                                    },
-                                );
-                            }
-                            _ => {
-                                if let Some(formula) = cell_record.formula {
-                                    let formula_element = xml_doc_mut
-                                        .append_child_mut("f", Some(&cell_id))
-                                        .context("Failed to insert Inline string element")?;
-                                    formula_element.set_value_mut(formula);
-                                }
-                                xml_doc_mut
-                                    .append_child_mut("v", Some(&cell_id))
-                                    .context("Failed to insert Inline string element")?
-                                    .set_value_mut(if let Some(value) = cell_record.value {
-                                        value
-                                    } else {
-                                        "".to_string()
-                                    });
-                            }
-                        }
-                    }
+                            cell_record,
+                        )?,
+                    });
                 }
+                child_ids.extend(other_ids);
+                xml_doc_mut.set_child_ids_mut(&row_element_id, &child_ids);
             }
         }
+        xml_doc_mut.set_child_ids_mut(&sheet_data_id, &row_ids);
         Ok(())
     }
 }
 
-fn deserialize_cols(
+/// Reset the row attributes to the properties
+fn serialize_row_properties(
+    row_record: RowProperties,
+    row_attribute: &mut HashMap<String, String>,
+) {
+    for key in [
+        "s",
+        "customFormat",
+        "ht",
+        "customHeight",
+        "hidden",
+        "outlineLevel",
+        "collapsed",
+        "thickTop",
+        "thickBot",
+        "ph",
+    ] {
+        row_attribute.remove(key);
+    }
+    if let Some(row_style_id) = row_record.style_id {
+        row_attribute.insert("customFormat".to_string(), "1".to_string());
+        row_attribute.insert("s".to_string(), row_style_id.id.to_string());
+    }
+    if let Some(row_height) = row_record.height {
+        row_attribute.insert("customHeight".to_string(), "1".to_string());
+        row_attribute.insert("ht".to_string(), row_height.to_string());
+    }
+    if row_record.hidden == Some(true) {
+        row_attribute.insert("hidden".to_string(), "1".to_string());
+    }
+    if let Some(row_group_level) = row_record.group_level {
+        row_attribute.insert("outlineLevel".to_string(), row_group_level.to_string());
+    }
+    if row_record.collapsed == Some(true) {
+        row_attribute.insert("collapsed".to_string(), "1".to_string());
+    }
+    if row_record.thick_top == Some(true) {
+        row_attribute.insert("thickTop".to_string(), "1".to_string());
+    }
+    if row_record.thick_bottom == Some(true) {
+        row_attribute.insert("thickBot".to_string(), "1".to_string());
+    }
+    if row_record.place_holder == Some(true) {
+        row_attribute.insert("ph".to_string(), "1".to_string());
+    }
+}
+
+/// Create cell element and return its id
+fn serialize_cell(
     xml_doc_mut: &mut XmlDocument,
-) -> AnyResult<Option<VecDeque<ColumnProperties>>, AnyError> {
-    if let Some(mut cols_element) = xml_doc_mut.pop_elements_by_tag_mut("cols", None) {
-        // Process the columns record if parent node exist
-        if let Some(cols) = cols_element.pop() {
-            let mut column_collection = VecDeque::with_capacity(cols.get_child_count());
-            loop {
-                if let Some((col_elements, _)) = cols.pop_child_mut() {
-                    if let Some(col) = xml_doc_mut.pop_element_mut(&col_elements) {
-                        let mut column_properties = ColumnProperties::default();
-                        let attributes = col
-                            .get_attribute()
-                            .ok_or(anyhow!("Error Getting col attribute"))?;
-                        if let Some(min) = attributes.get("min") {
-                            column_properties.min =
-                                min.parse().context("Failed to parse min value")?;
-                        }
-                        if let Some(max) = attributes.get("max") {
-                            column_properties.max =
-                                max.parse().context("Failed to parse min value")?;
-                        }
-                        if let Some(best_fit) = attributes.get("bestFit") {
-                            column_properties.best_fit =
-                                if best_fit == "1" { Some(true) } else { None }
-                        }
-                        if let Some(hidden) = attributes.get("hidden") {
-                            column_properties.hidden = if hidden == "1" { Some(true) } else { None }
-                        }
-                        if let Some(style) = attributes.get("style") {
-                            column_properties.style_id = Some(StyleId::new(
-                                style.parse().context("Failed to parse style ID")?,
-                            ));
-                        }
-                        if let Some(outline_level) = attributes.get("outlineLevel") {
-                            column_properties.group_level =
-                                outline_level.parse().context("Failed to parse style ID")?;
-                        }
-                        if let Some(custom_width) = attributes.get("customWidth") {
-                            if custom_width == "1" {
-                                column_properties.width = Some(
-                                    attributes
-                                        .get("width")
-                                        .ok_or(anyhow!("Failed to get custom width"))?
-                                        .parse()
-                                        .context("Failed to parse custom width")?,
-                                );
-                            }
-                        }
-                        if let Some(collapsed) = attributes.get("collapsed") {
-                            column_properties.collapsed =
-                                if collapsed == "1" { Some(true) } else { None }
-                        }
-                        column_collection.push_back(column_properties);
-                    }
-                } else {
-                    break;
-                }
-            }
-            return Ok(Some(column_collection));
+    row_element_id: &usize,
+    cell_ref: String,
+    cell_record: CellProperties,
+) -> AnyResult<usize, AnyError> {
+    // Create cell element
+    let cell_element = xml_doc_mut
+        .append_child_mut("c", Some(row_element_id))
+        .context("Failed to insert row element")?;
+    let cell_id = cell_element.get_id();
+    let mut cell_attribute = HashMap::new();
+    cell_attribute.insert("r".to_string(), cell_ref);
+    if let Some(cell_style_id) = cell_record.style_id {
+        cell_attribute.insert("s".to_string(), cell_style_id.id.to_string());
+    }
+    if cell_record.data_type != CellDataType::Number {
+        cell_attribute.insert(
+            "t".to_string(),
+            CellDataType::get_string(cell_record.data_type),
+        );
+    }
+    if let Some(cell_comment_id) = cell_record.comment_id {
+        cell_attribute.insert("cm".to_string(), cell_comment_id.to_string());
+    }
+    if let Some(cell_metadata) = cell_record.metadata {
+        cell_attribute.insert("vm".to_string(), cell_metadata.to_string());
+    }
+    if cell_record.place_holder == Some(true) {
+        cell_attribute.insert("ph".to_string(), "1".to_string());
+    }
+    cell_element
+        .set_attribute_mut(cell_attribute)
+        .context("Failed to Set Attribute for cell")?;
+    // Create cell's child element
+    if let Some(formula) = cell_record.formula {
+        xml_doc_mut
+            .append_child_mut("f", Some(&cell_id))
+            .context("Failed to insert Formula element")?
+            .set_value_mut(formula);
+    }
+    if let Some(value) = cell_record.value {
+        if cell_record.data_type == CellDataType::InlineString {
+            let inline_string_id = xml_doc_mut
+                .append_child_mut("is", Some(&cell_id))
+                .context("Failed to insert Inline string element")?
+                .get_id();
+            xml_doc_mut
+                .append_child_mut("t", Some(&inline_string_id))
+                .context("Failed To insert Text Value to inline string")?
+                .set_preserved_value_mut(value);
+        } else {
+            xml_doc_mut
+                .append_child_mut("v", Some(&cell_id))
+                .context("Failed to insert value element")?
+                .set_value_mut(value);
         }
     }
-    Ok(None)
+    Ok(cell_id)
 }
 
-/// DeSerializing Worksheet View
-fn deserialize_worksheet_views(
-    xml_doc_mut: &mut XmlDocument,
-) -> AnyResult<WorkSheetViews, AnyError> {
-    let mut worksheet_views = WorkSheetViews::default();
-    if let Some(mut sheet_views_elements) = xml_doc_mut.pop_elements_by_tag_mut("sheetViews", None)
+/// Get the column ranges of the sheet
+fn deserialize_cols(xml_doc: &XmlDocument) -> AnyResult<BTreeMap<u16, ColumnRange>, AnyError> {
+    let mut column_collection: BTreeMap<u16, ColumnRange> = BTreeMap::new();
+    for cols_id in xml_doc
+        .get_element_ids_by_tag("cols", None)
+        .unwrap_or_default()
     {
-        if let Some(sheet_views_element) = sheet_views_elements.pop() {
-            loop {
-                if let Some((element_id, element_tag)) = sheet_views_element.pop_child_mut() {
-                    // Validate element that are not accounted
-                    if element_tag != "sheetView" {
-                        return Err(anyhow!("Failed to Process Sheet Views child"));
-                    } else {
-                        let sheet_view_element = xml_doc_mut
-                            .pop_element_mut(&element_id)
-                            .context("Failed to get Sheet View Element")?;
-                        let mut worksheet_view = WorkSheetView::default();
-                        let attributes = sheet_view_element
-                            .get_attribute()
-                            .context("Failed to Get Attributes of Sheet View")?;
-                        worksheet_view.workbook_view_id = attributes
-                            .get("workbookViewId")
-                            .context(
-                                "Mandatory attribute \"workbookViewId\" is missing from sheetView",
-                            )?
-                            .clone();
-                        // Windows protection
-                        if let Some(window_protection) = attributes.get("windowProtection") {
-                            worksheet_view.window_protection = Some(
-                                ConverterUtil::normalize_bool_property_bool(&window_protection),
-                            );
-                        }
-                        // Show formula
-                        if let Some(show_formula_bar) = attributes.get("showFormulas") {
-                            worksheet_view.show_formula_bar = Some(
-                                ConverterUtil::normalize_bool_property_bool(&show_formula_bar),
-                            );
-                        }
-                        // Show Grid Line
-                        if let Some(show_grid_line) = attributes.get("showGridLines") {
-                            worksheet_view.show_grid_line =
-                                Some(ConverterUtil::normalize_bool_property_bool(&show_grid_line));
-                        }
-                        // Show row column header
-                        if let Some(show_row_col_header) = attributes.get("showRowColHeaders") {
-                            worksheet_view.show_row_col_header = Some(
-                                ConverterUtil::normalize_bool_property_bool(&show_row_col_header),
-                            );
-                        }
-                        // Show Zero
-                        if let Some(show_zero) = attributes.get("showZeros") {
-                            worksheet_view.show_zero =
-                                Some(ConverterUtil::normalize_bool_property_bool(&show_zero));
-                        }
-                        // Right to Left
-                        if let Some(view_right_to_left) = attributes.get("rightToLeft") {
-                            worksheet_view.view_right_to_left = Some(
-                                ConverterUtil::normalize_bool_property_bool(&view_right_to_left),
-                            );
-                        }
-                        // Tab Selected
-                        if let Some(tab_selected) = attributes.get("tabSelected") {
-                            worksheet_view.tab_selected =
-                                Some(ConverterUtil::normalize_bool_property_bool(&tab_selected));
-                        }
-                        // show ruler
-                        if let Some(show_ruler) = attributes.get("showRuler") {
-                            worksheet_view.show_ruler =
-                                Some(ConverterUtil::normalize_bool_property_bool(&show_ruler));
-                        }
-                        // show white space
-                        if let Some(show_white_space) = attributes.get("showWhiteSpace") {
-                            worksheet_view.show_white_space =
-                                Some(ConverterUtil::normalize_bool_property_bool(&show_white_space));
-                        }
-                        // Show outlined Symbols
-                        if let Some(show_outline_symbol) = attributes.get("showOutlineSymbols") {
-                            worksheet_view.show_outline_symbol = Some(
-                                ConverterUtil::normalize_bool_property_bool(&show_outline_symbol),
-                            );
-                        }
-                        // Default Grid Color
-                        if let Some(default_grid_color) = attributes.get("defaultGridColor") {
-                            worksheet_view.default_grid_color = Some(
-                                ConverterUtil::normalize_bool_property_bool(&default_grid_color),
-                            );
-                        }
-                        // Top Left Cell
-                        if let Some(top_left_cell) = attributes.get("topLeftCell") {
-                            worksheet_view.top_left_cell = Some(top_left_cell.clone());
-                        }
-                        // View Setting
-                        if let Some(view) = attributes.get("view") {
-                            worksheet_view.view = Some(view.clone());
-                        }
-                        // Zoom Scale
-                        if let Some(zoom_scale) = attributes.get("zoomScale") {
-                            worksheet_view.zoom_scale = Some(
-                                zoom_scale
-                                    .parse()
-                                    .context("Failed to Convert Zoom Normal to i16")?,
-                            );
-                        }
-                        // Zoom Scale Normal
-                        if let Some(zoom_scale_normal) = attributes.get("zoomScaleNormal") {
-                            worksheet_view.zoom_scale_normal = Some(
-                                zoom_scale_normal
-                                    .parse()
-                                    .context("Failed to Convert Zoom Normal to i16")?,
-                            );
-                        }
-                        // Zoom Scale Sheet Layout View
-                        if let Some(zoom_scale_sheet_layout) =
-                            attributes.get("zoomScaleSheetLayoutView")
-                        {
-                            worksheet_view.zoom_scale_sheet_layout = Some(
-                                zoom_scale_sheet_layout
-                                    .parse()
-                                    .context("Failed to Convert Zoom Normal to i16")?,
-                            );
-                        }
-                        // Zoom Scale Page Layout View
-                        if let Some(zoom_scale_page_layout) =
-                            attributes.get("zoomScalePageLayoutView")
-                        {
-                            worksheet_view.zoom_scale_page_layout = Some(
-                                zoom_scale_page_layout
-                                    .parse()
-                                    .context("Failed to Convert Zoom Normal to i16")?,
-                            );
-                        }
-                        worksheet_views.view_collection.push(worksheet_view);
-                    }
-                } else {
-                    break;
-                }
+        for col_id in xml_doc
+            .get_element_ids_by_tag("col", Some(&cols_id))
+            .unwrap_or_default()
+        {
+            let attributes = xml_doc
+                .get_element(&col_id)
+                .and_then(|item| item.get_attribute())
+                .ok_or(anyhow!("Error Getting col attribute"))?;
+            let get_limit = |key: &str| -> AnyResult<u16, AnyError> {
+                attributes
+                    .get(key)
+                    .ok_or(anyhow!("Missing mandatory col attribute {}", key))?
+                    .trim()
+                    .parse()
+                    .context(format!("Failed to parse {} value", key))
+            };
+            let (min, max) = (get_limit("min")?, get_limit("max")?);
+            if min == 0 || min > max || max > MAX_COLUMN_INDEX {
+                return Err(anyhow!("Column range is not part of the sheet"));
+            }
+            if column_collection
+                .range(..=max)
+                .next_back()
+                .is_some_and(|(_, range)| range.max >= min)
+            {
+                return Err(anyhow!("Column ranges of the sheet overlap"));
             }
+            column_collection.insert(
+                min,
+                ColumnRange {
+                    max,
+                    attributes: attributes.clone(),
+                },
+            );
         }
     }
-    Ok(worksheet_views)
+    Ok(column_collection)
 }
 
-/// Deserialize Sheet Data
+/// Index the rows and cells, the elements itself stay in the document
 fn deserialize_sheet_data(
     xml_doc_mut: &mut XmlDocument,
-) -> AnyResult<(Option<BTreeMap<u32, RowData>>, Dimension), AnyError> {
-    let mut dimension = Dimension::default();
-    if let Some(mut sheet_data_element) = xml_doc_mut.pop_elements_by_tag_mut("sheetData", None) {
-        if let Some(sheet_data) = sheet_data_element.pop() {
-            let mut sheet_data_collection: BTreeMap<u32, RowData> = BTreeMap::new();
-            // Loop All rows of sheet data
-            loop {
-                if let Some((row_element_id, _)) = sheet_data.pop_child_mut() {
-                    if let Some(row_element) = xml_doc_mut.pop_element_mut(&row_element_id) {
-                        let mut row_record = RowProperties::default();
-                        let row_attribute = row_element
-                            .get_attribute()
-                            .ok_or(anyhow!("Failed to pull Row Attribute."))?;
-                        // Get Row Id
-                        let row_index = row_attribute
-                            .get("r")
-                            .ok_or(anyhow!("Missing mandatory row id attribute"))?
-                            .parse()
-                            .context("Failed to parse row id")?;
-                        if let Some(row_span) = row_attribute.get("spans") {
-                            row_record.span = Some(row_span.to_string());
-                        }
-                        if let Some(style_id) = row_attribute.get("s") {
-                            if let Some(custom_formant) = row_attribute.get("customFormat") {
-                                row_record.style_id = if custom_formant == "1" {
-                                    Some(StyleId::new(
-                                        style_id
-                                            .parse()
-                                            .context("Failed to parse the row style id")?,
-                                    ))
-                                } else {
-                                    None
-                                };
-                            }
-                        }
-                        if let Some(hidden) = row_attribute.get("hidden") {
-                            row_record.hidden = if hidden == "1" { Some(true) } else { None };
-                        }
-                        if let Some(height) = row_attribute.get("ht") {
-                            if let Some(custom_height) = row_attribute.get("customHeight") {
-                                row_record.height = if custom_height == "1" {
-                                    Some(height.parse().context("Failed to parse the row height")?)
-                                } else {
-                                    None
-                                };
-                            }
-                        }
-                        if let Some(row_group_level) = row_attribute.get("outlineLevel") {
-                            let outline_level = row_group_level
-                                .parse()
-                                .context("Failed to parse the row group level")?;
-                            row_record.group_level = if outline_level > 0 {
-                                Some(outline_level)
-                            } else {
-                                None
-                            };
-                        }
-                        if let Some(collapsed) = row_attribute.get("collapsed") {
-                            row_record.collapsed = if collapsed == "1" { Some(true) } else { None };
-                        }
-                        if let Some(thick_top) = row_attribute.get("thickTop") {
-                            row_record.thick_top = if thick_top == "1" { Some(true) } else { None };
-                        }
-                        if let Some(thick_bottom) = row_attribute.get("thickBot") {
-                            row_record.thick_bottom = if thick_bottom == "1" {
-                                Some(true)
-                            } else {
-                                None
-                            };
-                        }
-                        if let Some(place_holder) = row_attribute.get("ph") {
-                            row_record.place_holder = if place_holder == "1" {
-                                Some(true)
-                            } else {
-                                None
-                            };
-                        }
-                        let mut cell_records: BTreeMap<u16, CellProperties> = BTreeMap::new();
-                        // Loop All Columns of row
-                        loop {
-                            let mut cell_record = CellProperties::default();
-                            if let Some((col_element_id, _)) = row_element.pop_child_mut() {
-                                if let Some(col_element) =
-                                    xml_doc_mut.pop_element_mut(&col_element_id)
-                                {
-                                    let cell_attribute = col_element
-                                        .get_attribute()
-                                        .ok_or(anyhow!("Failed to pull attribute for Column"))?;
-                                    // Get Col Id
-                                    let col_index = ConverterUtil::get_column_index(
-                                        cell_attribute
-                                            .get("r")
-                                            .ok_or(anyhow!("Missing mandatory col id attribute"))?,
-                                    )
-                                    .context("Failed to Convert col worksheet initialize")?;
-                                    if let Some(style_id) = cell_attribute.get("s") {
-                                        cell_record.style_id = Some(StyleId::new(
-                                            style_id
-                                                .parse()
-                                                .context("Failed to parse the col style id")?,
-                                        ));
-                                    }
-                                    if let Some(cell_type) = cell_attribute.get("t") {
-                                        cell_record.data_type = CellDataType::get_enum(&cell_type);
-                                    } else {
-                                        cell_record.data_type = CellDataType::Number;
-                                    }
-                                    if let Some(comment_id) = cell_attribute.get("cm") {
-                                        cell_record.comment_id = Some(
-                                            comment_id
-                                                .parse()
-                                                .context("Failed to parse the col comment id")?,
-                                        );
-                                    };
-                                    if let Some(value_meta_id) = cell_attribute.get("vm") {
-                                        cell_record.metadata =
-                                            Some(value_meta_id.parse().context(
-                                                "Failed to parse the col value meta id",
-                                            )?);
-                                    };
-                                    if let Some(place_holder) = cell_attribute.get("ph") {
-                                        cell_record.place_holder = if place_holder == "1" {
-                                            Some(true)
-                                        } else {
-                                            None
-                                        };
-                                    };
-                                    loop {
-                                        if let Some((cell_child_id, _)) =
-                                            col_element.pop_child_mut()
-                                        {
-                                            if let Some(element) =
-                                                xml_doc_mut.pop_element_mut(&cell_child_id)
-                                            {
-                                                match element.get_tag() {
-                                                    "v" => {
-                                                        cell_record.value =
-                                                            element.get_value().clone();
-                                                    }
-                                                    "f" => {
-                                                        cell_record.formula =
-                                                            element.get_value().clone();
-                                                    }
-                                                    "is" => {
-                                                        if let Some((text_id, _)) =
-                                                            element.pop_child_mut()
-                                                        {
-                                                            if let Some(text_element) = xml_doc_mut
-                                                                .pop_element_mut(&text_id)
-                                                            {
-                                                                cell_record.value = text_element
-                                                                    .get_value()
-                                                                    .clone();
-                                                            }
-                                                        }
-                                                    }
-                                                    _ => {
-                                                        return Err(anyhow!(
-                                                            "Found un-know element cell child"
-                                                        ));
-                                                    }
-                                                }
-                                            }
-                                        } else {
-                                            break;
-                                        }
-                                    }
-                                    dimension.start_col = min(dimension.start_col, col_index);
-                                    dimension.end_col = max(dimension.end_col, col_index);
-                                    cell_records.insert(col_index, cell_record);
-                                }
-                            } else {
-                                break;
-                            }
-                        }
-                        sheet_data_collection.insert(
-                            row_index,
-                            RowData {
-                                row_record,
-                                cell_records: if cell_records.len() > 0 {
-                                    Some(cell_records)
-                                } else {
-                                    None
-                                },
-                            },
-                        );
-                    }
-                } else {
-                    break;
-                }
+) -> AnyResult<BTreeMap<u32, RowData>, AnyError> {
+    /// Set the reference if it is left out or not as expected
+    fn set_reference(
+        xml_doc_mut: &mut XmlDocument,
+        element_id: &usize,
+        reference: String,
+    ) -> AnyResult<(), AnyError> {
+        if let Some(element) = xml_doc_mut.get_element_mut(element_id) {
+            let mut attributes = element.get_attribute().cloned().unwrap_or_default();
+            attributes.insert("r".to_string(), reference);
+            element
+                .set_attribute_mut(attributes)
+                .context("Failed to set reference")?;
+        }
+        Ok(())
+    }
+    fn get_reference(xml_doc_mut: &XmlDocument, element_id: &usize) -> Option<String> {
+        xml_doc_mut
+            .get_element(element_id)
+            .and_then(|item| item.get_attribute())
+            .and_then(|item| item.get("r").cloned())
+    }
+    let mut sheet_data: BTreeMap<u32, RowData> = BTreeMap::new();
+    let Some(sheet_data_id) = xml_doc_mut
+        .get_element_ids_by_tag("sheetData", None)
+        .and_then(|item| item.first().copied())
+    else {
+        return Ok(sheet_data);
+    };
+    let mut row_index: u32 = 0;
+    // Loop All rows of sheet data
+    for row_id in xml_doc_mut
+        .get_element_ids_by_tag("row", Some(&sheet_data_id))
+        .unwrap_or_default()
+    {
+        // Row without reference is next to its previous row
+        row_index = match get_reference(xml_doc_mut, &row_id) {
+            Some(reference) => reference.trim().parse().context("Failed to parse row id")?,
+            None => row_index + 1,
+        };
+        if row_index == 0 || row_index > MAX_ROW_INDEX {
+            return Err(anyhow!("Row is not part of the sheet"));
+        }
+        let mut row = RowData {
+            element_id: Some(row_id),
+            ..Default::default()
+        };
+        let mut col_index: u16 = 0;
+        // Loop All Columns of row
+        for cell_id in xml_doc_mut
+            .get_element_ids_by_tag("c", Some(&row_id))
+            .unwrap_or_default()
+        {
+            let reference = get_reference(xml_doc_mut, &cell_id);
+            // Cell without reference is next to its previous cell
+            col_index = match &reference {
+                Some(reference) => ConverterUtil::get_column_index(reference.trim())
+                    .context("Failed to Convert col worksheet initialize")?,
+                None => col_index + 1,
+            };
+            if col_index > MAX_COLUMN_INDEX {
+                return Err(anyhow!("Column is beyond the last column of the sheet"));
             }
-            return Ok((Some(sheet_data_collection), dimension));
+            let cell_ref = format!(
+                "{}{}",
+                ConverterUtil::get_column_ref(col_index)
+                    .context("Failed to get Char Id from Int")?,
+                row_index
+            );
+            if reference.as_ref() != Some(&cell_ref) {
+                set_reference(xml_doc_mut, &cell_id, cell_ref)?;
+            }
+            // Cells not in order are to be written again
+            row.is_cell_updated |= row
+                .cell_records
+                .last_key_value()
+                .is_some_and(|(last, _)| *last > col_index);
+            if row
+                .cell_records
+                .insert(col_index, CellRecord::Source(cell_id))
+                .is_some()
+            {
+                return Err(anyhow!("Same cell found more than once"));
+            }
+        }
+        if sheet_data.insert(row_index, row).is_some() {
+            return Err(anyhow!("Same row found more than once"));
         }
     }
-    Ok((None, dimension))
+    Ok(sheet_data)
 }
 
 impl WorkSheet {
@@ -1205,41 +806,69 @@ impl WorkSheet {
         col_index: &u16,
         column_properties: Option<ColumnProperties>,
     ) -> AnyResult<(), AnyError> {
+        let col_index = *col_index;
+        if col_index == 0 || col_index > MAX_COLUMN_INDEX {
+            return Err(anyhow!("Column is not part of the sheet"));
+        }
+        if let Some(width) = column_properties.as_ref().and_then(|item| item.width) {
+            if !width.is_finite() || width < 0.0 {
+                return Err(anyhow!("Column width is not valid"));
+            }
+        }
+        if self.column_collection.is_none() {
+            if let Some(xml_document) = self.xml_document.upgrade() {
+                let xml_doc = xml_document
+                    .try_borrow()
+                    .context("Failed to get XML doc handle")?;
+                self.column_collection =
+                    Some(deserialize_cols(&xml_doc).context("Failed To Deserialize Cols")?);
+            }
+        }
         if let Some(column_collection) = self.column_collection.as_mut() {
-            let mut new_ranges = VecDeque::new();
-            // Delete Old Record
-            column_collection.retain_mut(|range| {
-                if range.min == *col_index && range.max == *col_index {
-                    // Fully matched range, remove it
-                    return false;
-                } else if range.min <= *col_index && *col_index <= range.max {
-                    // Value lies within the range
-                    if range.min == *col_index {
-                        // Trim the start
-                        range.min = col_index + 1;
-                    } else if range.max == *col_index {
-                        // Trim the end
-                        range.max = col_index - 1;
-                    } else {
-                        // Split the range
-                        new_ranges.push_back(ColumnProperties {
-                            min: col_index + 1,
-                            max: range.max,
-                            ..ColumnProperties::default()
-                        });
-                        range.max = col_index - 1;
-                    }
+            // Split the range the column is part of
+            if let Some((min, range)) = column_collection
+                .range(..=col_index)
+                .next_back()
+                .map(|(min, range)| (*min, range.clone()))
+                .filter(|(_, range)| range.max >= col_index)
+            {
+                column_collection.remove(&min);
+                if min < col_index {
+                    column_collection.insert(
+                        min,
+                        ColumnRange {
+                            max: col_index - 1,
+                            attributes: range.attributes.clone(),
+                        },
+                    );
+                }
+                if range.max > col_index {
+                    column_collection.insert(col_index + 1, range);
                 }
-                true
-            });
+            }
             if let Some(column_properties) = column_properties {
-                column_collection.push_back(ColumnProperties {
-                    max: *col_index,
-                    min: *col_index,
-                    ..column_properties
-                });
+                let mut attributes = HashMap::new();
+                if let Some(width) = column_properties.width {
+                    attributes.insert("customWidth".to_string(), "1".to_string());
+                    attributes.insert("width".to_string(), width.to_string());
+                }
+                if let Some(style_id) = column_properties.style_id {
+                    attributes.insert("style".to_string(), style_id.id.to_string());
+                }
+                if column_properties.hidden == Some(true) {
+                    attributes.insert("hidden".to_string(), "1".to_string());
+                }
+                if column_properties.best_fit == Some(true) {
+                    attributes.insert("bestFit".to_string(), "1".to_string());
+                }
+                column_collection.insert(
+                    col_index,
+                    ColumnRange {
+                        max: col_index,
+                        attributes,
+                    },
+                );
             }
-            column_collection.append(&mut new_ranges);
         }
         Ok(())
     }
@@ -1250,29 +879,15 @@ impl WorkSheet {
         row_index: &u32,
         row_properties: RowProperties,
     ) -> AnyResult<(), AnyError> {
-        if let Some(sheet_data) = self.sheet_data.as_mut() {
-            if let Some(row) = sheet_data.get_mut(row_index) {
-                row.row_record = row_properties;
-            } else {
-                sheet_data.insert(
-                    *row_index,
-                    RowData {
-                        row_record: row_properties,
-                        cell_records: None,
-                    },
-                );
+        if *row_index == 0 || *row_index > MAX_ROW_INDEX {
+            return Err(anyhow!("Row is not part of the sheet"));
+        }
+        if let Some(height) = row_properties.height {
+            if !height.is_finite() || height < 0.0 {
+                return Err(anyhow!("Row height is not valid"));
             }
-        } else {
-            let mut map = BTreeMap::new();
-            map.insert(
-                *row_index,
-                RowData {
-                    row_record: row_properties,
-                    cell_records: None,
-                },
-            );
-            self.sheet_data = Some(map);
         }
+        self.sheet_data.entry(*row_index).or_default().row_record = Some(row_properties);
         Ok(())
     }
 
@@ -1291,102 +906,90 @@ impl WorkSheet {
     pub fn set_row_value_index_mut(
         &mut self,
         row_index: u32,
-        mut col_index: u16,
+        col_index: u16,
         mut column_cell: Vec<CellProperties>,
     ) -> AnyResult<(), AnyError> {
-        // Map Start Normalization
-        col_index -= 1;
+        if row_index == 0 || row_index > MAX_ROW_INDEX {
+            return Err(anyhow!("Row is not part of the sheet"));
+        }
+        if col_index == 0
+            || usize::from(col_index) + column_cell.len() > usize::from(MAX_COLUMN_INDEX) + 1
+        {
+            return Err(anyhow!("Column is not part of the sheet"));
+        }
         for cell_data in column_cell.iter_mut() {
-            if let Some(cell_value) = cell_data.value.as_ref() {
-                match cell_data.data_type {
-                    CellDataType::Auto => {
-                        if cell_value.parse::<f64>().is_ok() {
-                            cell_data.data_type = CellDataType::Number;
-                        } else if cell_value.parse::<bool>().is_ok() {
-                            cell_data.data_type = CellDataType::Boolean;
-                            if cell_value.parse::<bool>().context("Parse Fail")? {
-                                cell_data.value = Some("1".to_string());
-                            } else {
-                                cell_data.value = Some("0".to_string());
-                            }
-                        } else {
-                            cell_data.data_type = CellDataType::ShareString;
-                            cell_data.value = Some(self.update_share_string(cell_value)?);
-                        }
-                    }
-                    CellDataType::ShareString => {
-                        cell_data.value = Some(self.update_share_string(cell_value)?);
+            if [&cell_data.value, &cell_data.formula].iter().any(|item| {
+                item.as_ref()
+                    .is_some_and(|item| !item.chars().all(is_xml_char))
+            }) {
+                return Err(anyhow!("Cell has character not allowed in XML"));
+            }
+            let is_number = |cell_value: &str| {
+                cell_value
+                    .parse::<f64>()
+                    .is_ok_and(|number| number.is_finite())
+            };
+            match (cell_data.data_type, cell_data.value.as_deref()) {
+                (_, None) => cell_data.data_type = CellDataType::Number,
+                (CellDataType::Auto, Some(cell_value)) => {
+                    if is_number(cell_value) {
+                        cell_data.data_type = CellDataType::Number;
+                    } else if let Ok(cell_value) = cell_value.parse::<bool>() {
+                        cell_data.data_type = CellDataType::Boolean;
+                        cell_data.value = Some(ConverterUtil::bool_xml_flag(&cell_value));
+                    } else {
+                        cell_data.data_type = CellDataType::ShareString;
                     }
-                    CellDataType::Boolean => {
-                        cell_data.value = match cell_value.to_lowercase().as_str() {
-                            "false" | "0" | "" => Some("0".to_string()),
-                            _ => Some("1".to_string()),
-                        }
+                }
+                (CellDataType::Boolean, Some(cell_value)) => {
+                    cell_data.value = match cell_value.to_lowercase().as_str() {
+                        "false" | "0" | "" => Some("0".to_string()),
+                        _ => Some("1".to_string()),
                     }
-                    _ => {}
                 }
-            } else {
-                cell_data.data_type = CellDataType::Number;
+                (CellDataType::Number, Some("")) => cell_data.value = None,
+                (CellDataType::Number, Some(cell_value)) if !is_number(cell_value) => {
+                    return Err(anyhow!("Cell value is not a number"));
+                }
+                _ => {}
+            }
+        }
+        // Update the string table only after all the cells are valid
+        for cell_data in column_cell.iter_mut() {
+            if let (CellDataType::ShareString, Some(cell_value)) =
+                (cell_data.data_type, cell_data.value.as_ref())
+            {
+                cell_data.value = Some(self.update_share_string(cell_value)?);
             }
         }
-        // Load If Sheet Data Exist
-        if let Some(sheet_data) = self.sheet_data.as_mut() {
-            // Load If Row Exits
-            if let Some(row) = sheet_data.get_mut(&row_index) {
-                // Check if the row already has cell data
-                if let Some(cell_records) = row.cell_records.as_mut() {
-                    cell_records.extend(column_cell.iter_mut().map(|item| {
-                        col_index += 1;
-                        self.dimension.start_col = min(self.dimension.start_col, col_index);
-                        self.dimension.end_col = max(self.dimension.end_col, col_index);
-                        (col_index, item.clone())
-                    }));
-                } else {
-                    //Create cells If new
-                    let mut cell_records = BTreeMap::new();
-                    cell_records.extend(column_cell.iter_mut().map(|item| {
-                        col_index += 1;
-                        self.dimension.start_col = min(self.dimension.start_col, col_index);
-                        self.dimension.end_col = max(self.dimension.end_col, col_index);
-                        (col_index, item.clone())
-                    }));
-                    row.cell_records = Some(cell_records);
+        if column_cell.is_empty() {
+            return Ok(());
+        }
+        let row = self.sheet_data.entry(row_index).or_default();
+        row.is_cell_updated = true;
+        for (cell_index, cell_data) in (col_index..).zip(column_cell) {
+            if let Some(CellRecord::Source(element_id)) = row
+                .cell_records
+                .insert(cell_index, CellRecord::Updated(cell_data))
+            {
+                if let Some(xml_document) = self.xml_document.upgrade() {
+                    let mut xml_doc_mut = xml_document
+                        .try_borrow_mut()
+                        .context("Failed to get XML doc handle")?;
+                    if xml_doc_mut
+                        .get_element_ids_by_tag("f", Some(&element_id))
+                        .is_some()
+                    {
+                        self.replaced_formula.insert(format!(
+                            "{}{}",
+                            ConverterUtil::get_column_ref(cell_index)
+                                .context("Failed to get Char Id from Int")?,
+                            row_index
+                        ));
+                    }
+                    xml_doc_mut.pop_element_tree_mut(&element_id);
                 }
-            } else {
-                // Create If new Row
-                let mut cell_records = BTreeMap::new();
-                cell_records.extend(column_cell.iter_mut().map(|item| {
-                    col_index += 1;
-                    self.dimension.start_col = min(self.dimension.start_col, col_index);
-                    self.dimension.end_col = max(self.dimension.end_col, col_index);
-                    (col_index, item.clone())
-                }));
-                sheet_data.insert(
-                    row_index,
-                    RowData {
-                        row_record: RowProperties::default(),
-                        cell_records: Some(cell_records),
-                    },
-                );
             }
-        } else {
-            // Create Sheet Data
-            let mut sheet_data = BTreeMap::new();
-            let mut cell_records = BTreeMap::new();
-            cell_records.extend(column_cell.iter_mut().map(|item| {
-                col_index += 1;
-                self.dimension.start_col = min(self.dimension.start_col, col_index);
-                self.dimension.end_col = max(self.dimension.end_col, col_index);
-                (col_index, item.clone())
-            }));
-            sheet_data.insert(
-                row_index,
-                RowData {
-                    row_record: RowProperties::default(),
-                    cell_records: Some(cell_records),
-                },
-            );
-            self.sheet_data = Some(sheet_data);
         }
         Ok(())
     }
-- 
2.43.0


From 465ad6ecbe5beebb8fbc0a1ff53f7fd3c8390f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 14/30] fix: update the time stamps of core properties by
 namespace

Producers differ in the prefix of the namespaces (System.IO.Packaging writes
coreProperties without prefix), the modified time stayed stale for them and
was never added if missing.
---
 .../global_2007/parts/core_properties.rs      | 80 ++++++++++++++-----
 1 file changed, 58 insertions(+), 22 deletions(-)

diff --git a/rs/src/global/global_2007/parts/core_properties.rs b/rs/src/global/global_2007/parts/core_properties.rs
index 1c391e2..f76af3f 100644
--- a/rs/src/global/global_2007/parts/core_properties.rs
+++ b/rs/src/global/global_2007/parts/core_properties.rs
@@ -8,7 +8,9 @@ use crate::{
 };
 use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use chrono::Utc;
-use std::{cell::RefCell, rc::Weak};
+use std::{cell::RefCell, collections::HashMap, rc::Weak};
+
+const TERMS_NAMESPACE: &str = "http://purl.org/dc/terms/";
 
 #[derive(Debug)]
 pub struct CorePropertiesPart {
@@ -49,31 +51,23 @@ impl XmlDocumentPartCommon for CorePropertiesPart {
             let mut xml_document = xml_document_ref
                 .try_borrow_mut()
                 .context("Failed to Pull Office document")?;
-            match xml_document
-                .get_first_element_mut(vec!["cp:coreProperties", "dcterms:modified"], None)
+            let current_time = Utc::now().to_rfc3339_opts(chrono::SecondsFormat::Secs, true);
+            let modified_id = match Self::get_time_element_id(&xml_document, "modified") {
+                Some(modified_id) => Some(modified_id),
+                None => Self::insert_modified_element(&mut xml_document)
+                    .context("Failed to add modified time element")?,
+            };
+            if let Some(element) =
+                modified_id.and_then(|modified_id| xml_document.get_element_mut(&modified_id))
             {
-                Ok(result) => {
-                    if let Some(element) = result {
-                        element.set_value_mut(
-                            Utc::now().to_rfc3339_opts(chrono::SecondsFormat::Secs, true),
-                        );
-                    }
-                }
-                Err(_) => (),
+                element.set_value_mut(current_time.clone());
             }
-            match xml_document
-                .get_first_element_mut(vec!["cp:coreProperties", "dcterms:created"], None)
+            if let Some(element) = Self::get_time_element_id(&xml_document, "created")
+                .and_then(|created_id| xml_document.get_element_mut(&created_id))
             {
-                Ok(result) => {
-                    if let Some(element) = result {
-                        if !element.has_value() {
-                            element.set_value_mut(
-                                Utc::now().to_rfc3339_opts(chrono::SecondsFormat::Secs, true),
-                            );
-                        }
-                    }
+                if !element.has_value() {
+                    element.set_value_mut(current_time);
                 }
-                Err(_) => (),
             }
         }
         // Update the current state to DB before dropping the object
@@ -106,6 +100,48 @@ impl XmlDocumentPart for CorePropertiesPart {
 }
 
 impl CorePropertiesPart {
+    /// Get the time element, the prefix of its namespace can differ between producers
+    fn get_time_element_id(xml_document: &XmlDocument, name: &str) -> Option<usize> {
+        let root_element = xml_document.get_root()?;
+        let root_namespace = root_element.get_namespace().unwrap_or_default();
+        root_element.get_child_ids().into_iter().find(|child_id| {
+            let Some(element) = xml_document.get_element(child_id) else {
+                return false;
+            };
+            let (declaration, root_key, local_name) = match element.get_tag().split_once(':') {
+                Some((prefix, local_name)) => (format!("xmlns:{}", prefix), prefix, local_name),
+                None => ("xmlns".to_string(), "<Default>", element.get_tag()),
+            };
+            let namespace = element
+                .get_attribute()
+                .and_then(|item| item.get(&declaration))
+                .or(root_namespace.get(root_key));
+            local_name == name && namespace.is_some_and(|item| item == TERMS_NAMESPACE)
+        })
+    }
+
+    /// Add modified element if the root is of core properties
+    fn insert_modified_element(
+        xml_document: &mut XmlDocument,
+    ) -> AnyResult<Option<usize>, AnyError> {
+        if !xml_document
+            .get_root()
+            .is_some_and(|item| item.get_tag().rsplit(':').next() == Some("coreProperties"))
+        {
+            return Ok(None);
+        }
+        let element = xml_document.append_child_mut("dcterms:modified", None)?;
+        element.set_attribute_mut(HashMap::from([
+            ("xmlns:dcterms".to_string(), TERMS_NAMESPACE.to_string()),
+            (
+                "xmlns:xsi".to_string(),
+                "http://www.w3.org/2001/XMLSchema-instance".to_string(),
+            ),
+            ("xsi:type".to_string(), "dcterms:W3CDTF".to_string()),
+        ]))?;
+        Ok(Some(element.get_id()))
+    }
+
     fn get_core_properties_file_name(
         relations_part: &Weak<RefCell<RelationsPart>>,
     ) -> AnyResult<String, AnyError> {
-- 
2.43.0


From a6f2013599b7feb1e916e2f2370c4a2694025117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 15/30] fix: handle parts that bind the main namespace to a
 prefix

Files that write x:workbook, x:worksheet ... are valid, their content was not
found and a second content was added next to it.
---
 rs/src/files/xml/xml_serialize.rs | 85 +++++++++++++++++++++++++++++--
 1 file changed, 80 insertions(+), 5 deletions(-)

diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index 1798e0e..69acc21 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -13,6 +13,21 @@ use quick_xml::{
 };
 use std::{collections::HashMap, io::Cursor};
 
+/// Namespaces of the parts for which elements are handled without prefix
+const MAIN_NAMESPACES: [&str; 3] = [
+    "http://schemas.openxmlformats.org/spreadsheetml/2006/main",
+    "http://schemas.openxmlformats.org/package/2006/relationships",
+    "http://schemas.openxmlformats.org/package/2006/content-types",
+];
+
+/// Prefix bound to the main namespace, its elements are loaded without prefix
+struct MainPrefix {
+    /// Prefix with the colon
+    prefix: String,
+    /// Depth of the open element that declares the prefix or default namespace again
+    redeclared_depth: Option<usize>,
+}
+
 pub struct XmlSerializer {}
 
 impl XmlSerializer {
@@ -40,6 +55,7 @@ impl XmlSerializer {
         let mut root_loaded = false;
         // Element ids from the root down to the element currently open
         let mut open_elements: Vec<usize> = Vec::new();
+        let mut main_prefix: Option<MainPrefix> = None;
         loop {
             match reader.read_event_into(&mut temp_buffer) {
                 // Handle errors
@@ -51,8 +67,9 @@ impl XmlSerializer {
                     let element_id = Self::insert_element(
                         element,
                         xml_document,
-                        open_elements.last(),
+                        &open_elements,
                         &mut root_loaded,
+                        &mut main_prefix,
                     )?;
                     open_elements.push(element_id);
                 }
@@ -62,9 +79,11 @@ impl XmlSerializer {
                     Self::insert_element(
                         element,
                         xml_document,
-                        open_elements.last(),
+                        &open_elements,
                         &mut root_loaded,
+                        &mut main_prefix,
                     )?;
+                    Self::leave_element(&mut main_prefix, open_elements.len());
                 }
 
                 // Read text content
@@ -92,6 +111,7 @@ impl XmlSerializer {
                     open_elements
                         .pop()
                         .ok_or(anyhow!("Invalid XML Tree Parsing Failed."))?;
+                    Self::leave_element(&mut main_prefix, open_elements.len());
                 }
 
                 // End of file
@@ -114,13 +134,16 @@ impl XmlSerializer {
     fn insert_element(
         element: BytesStart,
         xml_document: &mut XmlDocument,
-        parent_id: Option<&usize>,
+        open_elements: &[usize],
         root_loaded: &mut bool,
+        main_prefix: &mut Option<MainPrefix>,
     ) -> AnyResult<usize, AnyError> {
-        let tag: String = std::str::from_utf8(element.name().into_inner())
+        let parent_id = open_elements.last();
+        let mut tag: String = std::str::from_utf8(element.name().into_inner())
             .context("XML Tag is not valid UTF-8")?
             .to_string();
-        let attributes = Self::get_attributes_string(element)?;
+        let mut attributes = Self::get_attributes_string(element)?;
+        Self::resolve_main_prefix(&mut tag, &mut attributes, open_elements.len(), main_prefix);
         let new_element = if let Some(parent_id) = parent_id {
             // Indentation before a child is not content
             if let Some(parent) = xml_document.get_element_mut(parent_id) {
@@ -149,6 +172,58 @@ impl XmlSerializer {
             .get_id())
     }
 
+    /// Use the main namespace as default namespace if the root binds it to a prefix
+    fn resolve_main_prefix(
+        tag: &mut String,
+        attributes: &mut HashMap<String, String>,
+        depth: usize,
+        main_prefix: &mut Option<MainPrefix>,
+    ) {
+        if depth == 0 {
+            let Some((prefix, local_name)) = tag.split_once(':') else {
+                return;
+            };
+            let Some(namespace) = attributes.get(&format!("xmlns:{}", prefix)).cloned() else {
+                return;
+            };
+            if MAIN_NAMESPACES.contains(&namespace.as_str()) && !attributes.contains_key("xmlns") {
+                *main_prefix = Some(MainPrefix {
+                    prefix: format!("{}:", prefix),
+                    redeclared_depth: None,
+                });
+                *tag = local_name.to_string();
+                attributes.insert("xmlns".to_string(), namespace);
+            }
+        } else if let Some(main_prefix) = main_prefix {
+            if main_prefix.redeclared_depth.is_some() {
+                return;
+            }
+            if attributes.contains_key("xmlns")
+                || attributes.contains_key(&format!(
+                    "xmlns:{}",
+                    main_prefix.prefix.trim_end_matches(':')
+                ))
+            {
+                main_prefix.redeclared_depth = Some(depth);
+            } else if let Some(local_name) = tag.strip_prefix(&main_prefix.prefix) {
+                *tag = local_name.to_string();
+            } else if !tag.contains(':') {
+                // Stay without namespace
+                attributes.insert("xmlns".to_string(), String::new());
+                main_prefix.redeclared_depth = Some(depth);
+            }
+        }
+    }
+
+    /// Main prefix is back in scope once the element that declares it again is closed
+    fn leave_element(main_prefix: &mut Option<MainPrefix>, depth: usize) {
+        if let Some(main_prefix) = main_prefix {
+            if main_prefix.redeclared_depth == Some(depth) {
+                main_prefix.redeclared_depth = None;
+            }
+        }
+    }
+
     /// Append text to the open element, keeping white space of elements without child
     fn append_text(
         text: &str,
-- 
2.43.0


From d380c98f35df319cd6f9fdf9187c20a337fce17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 16/30] fix: refuse an element with text and children instead
 of dropping the children

---
 rs/src/files/xml/xml_serialize.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index 69acc21..0818d0a 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -147,11 +147,10 @@ impl XmlSerializer {
         let new_element = if let Some(parent_id) = parent_id {
             // Indentation before a child is not content
             if let Some(parent) = xml_document.get_element_mut(parent_id) {
-                if parent
-                    .get_value()
-                    .as_ref()
-                    .is_some_and(|value| Self::is_white_space(value))
-                {
+                if let Some(value) = parent.get_value() {
+                    if !Self::is_white_space(value) {
+                        return Err(anyhow!("XML element with text and child not supported."));
+                    }
                     parent.clear_value_mut();
                 }
             }
@@ -238,7 +237,11 @@ impl XmlSerializer {
                 .get_element_mut(element_id)
                 .ok_or(anyhow!("Converting Option to Result Failed"))
                 .context("Getting Target Element Failed")?;
-            if element.get_child_count() == 0 || !Self::is_white_space(text) {
+            if element.get_child_count() > 0 {
+                if !Self::is_white_space(text) {
+                    return Err(anyhow!("XML element with text and child not supported."));
+                }
+            } else {
                 let mut value = element.get_value().clone().unwrap_or_default();
                 value.push_str(text);
                 element.set_value_mut(value);
-- 
2.43.0


From 08b36261ec52563ad763b47275de0c3a23a261a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 17/30] fix: report failures over FFI and map the font flags to
 their own field

rename and save returned Success along with the error message, italic and
underline followed the bold flag.
---
 rs_ffi/src/document/word.rs            | 2 +-
 rs_ffi/src/presentation/power_point.rs | 2 +-
 rs_ffi/src/spreadsheet/excel.rs        | 8 ++++----
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rs_ffi/src/document/word.rs b/rs_ffi/src/document/word.rs
index be1f0a2..bee025f 100644
--- a/rs_ffi/src/document/word.rs
+++ b/rs_ffi/src/document/word.rs
@@ -83,7 +83,7 @@ pub extern "C" fn word_save_as(
         Err(e) => match CString::new(format!("Flat Buffer Parse Error. {}", e)) {
             Result::Ok(str) => {
                 unsafe { *out_error = str.into_raw() };
-                StatusCode::Success as i8
+                StatusCode::IoError as i8
             }
             Err(e) => {
                 eprintln!("Error String send Error. {}", e);
diff --git a/rs_ffi/src/presentation/power_point.rs b/rs_ffi/src/presentation/power_point.rs
index 507b69a..cd2d2a1 100644
--- a/rs_ffi/src/presentation/power_point.rs
+++ b/rs_ffi/src/presentation/power_point.rs
@@ -83,7 +83,7 @@ pub extern "C" fn power_point_save_as(
         Err(e) => match CString::new(format!("Flat Buffer Parse Error. {}", e)) {
             Result::Ok(str) => {
                 unsafe { *out_error = str.into_raw() };
-                StatusCode::Success as i8
+                StatusCode::IoError as i8
             }
             Err(e) => {
                 eprintln!("Error String send Error. {}", e);
diff --git a/rs_ffi/src/spreadsheet/excel.rs b/rs_ffi/src/spreadsheet/excel.rs
index 639f229..5291d5f 100644
--- a/rs_ffi/src/spreadsheet/excel.rs
+++ b/rs_ffi/src/spreadsheet/excel.rs
@@ -153,7 +153,7 @@ pub extern "C" fn excel_rename_sheet(
         Err(e) => match CString::new(format!("Flat Buffer Parse Error. {}", e)) {
             Result::Ok(str) => {
                 unsafe { *out_error = str.into_raw() };
-                StatusCode::Success as i8
+                StatusCode::IoError as i8
             }
             Err(e) => {
                 eprintln!("Error String send Error. {}", e);
@@ -285,9 +285,9 @@ pub extern "C" fn get_style_id_mut(
                 // style_setting.text_color = text_color;
             }
             style_setting.is_bold = fbs_style_setting.is_bold();
-            style_setting.is_italic = fbs_style_setting.is_bold();
-            style_setting.is_underline = fbs_style_setting.is_bold();
-            style_setting.is_double_underline = fbs_style_setting.is_bold();
+            style_setting.is_italic = fbs_style_setting.is_italic();
+            style_setting.is_underline = fbs_style_setting.is_underline();
+            style_setting.is_double_underline = fbs_style_setting.is_double_underline();
             // fill
             // xfs
             style_setting.background_color =
-- 
2.43.0


From d9e24b11263a5dcda5c15cbd6da6b740697d89a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:14 +0000
Subject: [PATCH 18/30] fix: close the sheets handed out over FFI before the
 save

There is no call to close them, so every document with an added sheet could
not be saved and the sheets were never released.
---
 rs_ffi/src/spreadsheet/excel.rs | 59 +++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 18 deletions(-)

diff --git a/rs_ffi/src/spreadsheet/excel.rs b/rs_ffi/src/spreadsheet/excel.rs
index 5291d5f..d572552 100644
--- a/rs_ffi/src/spreadsheet/excel.rs
+++ b/rs_ffi/src/spreadsheet/excel.rs
@@ -3,6 +3,7 @@ use draviavemal_openxml_office::{
     global_2007::traits::Enum,
     spreadsheet_2007::{
         models::{NumberFormatValues, StyleSetting},
+        parts::WorkSheet,
         Excel, ExcelPropertiesModel,
     },
 };
@@ -12,6 +13,22 @@ use std::{
     slice::from_raw_parts,
 };
 
+/// Excel object along with the sheets handed out to the caller
+struct ExcelHandle {
+    /// Closed before the save as there is no other call to close them
+    worksheets: Vec<*mut WorkSheet>,
+    excel: Excel,
+}
+
+impl ExcelHandle {
+    /// Hand out the worksheet, it stays valid till the excel is saved
+    fn hand_out_worksheet(&mut self, worksheet: WorkSheet) -> *mut c_void {
+        let worksheet = Box::into_raw(Box::new(worksheet));
+        self.worksheets.push(worksheet);
+        worksheet as *mut c_void
+    }
+}
+
 #[no_mangle]
 /// Creates a new Excel object.
 ///
@@ -53,7 +70,10 @@ pub extern "C" fn excel_create(
             match excel {
                 Ok(excel) => {
                     unsafe {
-                        *out_excel = Box::into_raw(Box::new(excel)) as *mut c_void;
+                        *out_excel = Box::into_raw(Box::new(ExcelHandle {
+                            worksheets: Vec::new(),
+                            excel,
+                        })) as *mut c_void;
                     }
                     StatusCode::Success as i8
                 }
@@ -82,13 +102,13 @@ pub extern "C" fn excel_add_sheet(
         eprintln!("Received null pointer");
         return StatusCode::InvalidArgument as i8;
     }
-    let excel_ptr = excel_ptr as *mut Excel;
+    let excel_ptr = excel_ptr as *mut ExcelHandle;
     let mut excel = unsafe { ManuallyDrop::new(Box::from_raw(excel_ptr)) };
     if sheet_name.is_null() {
-        match excel.add_sheet_mut(None) {
+        match excel.excel.add_sheet_mut(None) {
             Result::Ok(worksheet) => {
                 unsafe {
-                    *out_worksheet = Box::into_raw(Box::new(worksheet)) as *mut c_void;
+                    *out_worksheet = excel.hand_out_worksheet(worksheet);
                 }
                 StatusCode::Success as i8
             }
@@ -107,10 +127,10 @@ pub extern "C" fn excel_add_sheet(
         let sheet_name = unsafe { CStr::from_ptr(sheet_name) }
             .to_string_lossy()
             .into_owned();
-        match excel.add_sheet_mut(Some(sheet_name)) {
+        match excel.excel.add_sheet_mut(Some(sheet_name)) {
             Result::Ok(worksheet) => {
                 unsafe {
-                    *out_worksheet = Box::into_raw(Box::new(worksheet)) as *mut c_void;
+                    *out_worksheet = excel.hand_out_worksheet(worksheet);
                 }
                 StatusCode::Success as i8
             }
@@ -140,7 +160,7 @@ pub extern "C" fn excel_rename_sheet(
         eprintln!("Received null pointer");
         return StatusCode::InvalidArgument as i8;
     }
-    let excel_ptr = excel_ptr as *mut Excel;
+    let excel_ptr = excel_ptr as *mut ExcelHandle;
     let mut excel = unsafe { ManuallyDrop::new(Box::from_raw(excel_ptr)) };
     let old_sheet_name = unsafe { CStr::from_ptr(old_sheet_name) }
         .to_string_lossy()
@@ -148,7 +168,7 @@ pub extern "C" fn excel_rename_sheet(
     let new_sheet_name = unsafe { CStr::from_ptr(new_sheet_name) }
         .to_string_lossy()
         .into_owned();
-    match excel.rename_sheet_name_mut(old_sheet_name, new_sheet_name) {
+    match excel.excel.rename_sheet_name_mut(old_sheet_name, new_sheet_name) {
         Result::Ok(()) => StatusCode::Success as i8,
         Err(e) => match CString::new(format!("Flat Buffer Parse Error. {}", e)) {
             Result::Ok(str) => {
@@ -175,15 +195,15 @@ pub extern "C" fn excel_get_sheet(
         eprintln!("Received null pointer");
         return StatusCode::InvalidArgument as i8;
     }
-    let excel_ptr = excel_ptr as *mut Excel;
+    let excel_ptr = excel_ptr as *mut ExcelHandle;
     let mut excel = unsafe { ManuallyDrop::new(Box::from_raw(excel_ptr)) };
     let sheet_name = unsafe { CStr::from_ptr(sheet_name) }
         .to_string_lossy()
         .into_owned();
-    match excel.get_worksheet_mut(sheet_name) {
+    match excel.excel.get_worksheet_mut(sheet_name) {
         Result::Ok(worksheet) => {
             unsafe {
-                *out_worksheet = Box::into_raw(Box::new(worksheet)) as *mut c_void;
+                *out_worksheet = excel.hand_out_worksheet(worksheet);
             }
             StatusCode::Success as i8
         }
@@ -210,7 +230,7 @@ pub extern "C" fn excel_get_sheet(
 //         eprintln!("Received null pointer");
 //         return StatusCode::InvalidArgument as i8;
 //     }
-//     let excel_ptr = excel_ptr as *mut Excel;
+//     let excel_ptr = excel_ptr as *mut ExcelHandle;
 //     let mut excel = unsafe { ManuallyDrop::new(Box::from_raw(excel_ptr)) };
 //     let sheet_names = excel.list_sheet_names();
 //     return StatusCode::InvalidArgument as i8;
@@ -227,12 +247,12 @@ pub extern "C" fn excel_hide_sheet(
         eprintln!("Received null pointer");
         return StatusCode::InvalidArgument as i8;
     }
-    let excel_ptr = excel_ptr as *mut Excel;
+    let excel_ptr = excel_ptr as *mut ExcelHandle;
     let mut excel = unsafe { ManuallyDrop::new(Box::from_raw(excel_ptr)) };
     let sheet_name = unsafe { CStr::from_ptr(sheet_name) }
         .to_string_lossy()
         .into_owned();
-    match excel.hide_sheet_mut(sheet_name) {
+    match excel.excel.hide_sheet_mut(sheet_name) {
         Result::Ok(()) => StatusCode::Success as i8,
         Err(e) => match CString::new(format!("Flat Buffer Parse Error. {}", e)) {
             Result::Ok(str) => {
@@ -262,7 +282,7 @@ pub extern "C" fn get_style_id_mut(
     if excel_ptr.is_null() || buffer.is_null() || buffer_size == 0 {
         return StatusCode::InvalidArgument as i8;
     }
-    let excel_ptr = excel_ptr as *mut Excel;
+    let excel_ptr = excel_ptr as *mut ExcelHandle;
     let mut excel = unsafe { ManuallyDrop::new(Box::from_raw(excel_ptr)) };
     let buffer_slice = unsafe { from_raw_parts(buffer, buffer_size) };
     match flatbuffers::root::<openxml_office_fbs::spreadsheet_2007::StyleSetting>(buffer_slice) {
@@ -295,7 +315,7 @@ pub extern "C" fn get_style_id_mut(
             style_setting.foreground_color =
                 fbs_style_setting.foreground_color().map(|s| s.to_string());
             style_setting.is_wrap_text = fbs_style_setting.is_wrap_text();
-            match excel.get_style_id_mut(style_setting) {
+            match excel.excel.get_style_id_mut(style_setting) {
                 Ok(style_id) => {
                     unsafe {
                         *out_style_id = Box::into_raw(Box::new(style_id.get_id())) as *mut u32;
@@ -334,8 +354,11 @@ pub extern "C" fn excel_save_as(
     let file_name = unsafe { CStr::from_ptr(file_name) }
         .to_string_lossy()
         .into_owned();
-    let excel_ptr = excel_ptr as *mut Excel;
-    let excel = unsafe { Box::from_raw(excel_ptr) };
+    let excel_ptr = excel_ptr as *mut ExcelHandle;
+    let ExcelHandle { worksheets, excel } = *unsafe { Box::from_raw(excel_ptr) };
+    for worksheet in worksheets {
+        drop(unsafe { Box::from_raw(worksheet) });
+    }
     match excel.save_as(&file_name) {
         Result::Ok(()) => StatusCode::Success as i8,
         Err(err) => match CString::new(format!("Flat Buffer Parse Error. {}", err)) {
-- 
2.43.0


From fe2d0a8a3d508825acf556d321779ce13dd02977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 19/30] fix: keep new shared strings when the table is closed
 twice

---
 rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
index b290406..5c284c5 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
@@ -43,6 +43,7 @@ impl XmlDocumentPartCommon for ShareStringPart {
                             let mut xml_doc_mut = xml_document
                                 .try_borrow_mut()
                                 .context("Failed to Pull Doc Reference")?;
+                            self.source_count = string_count;
                             for string in self.new_string_collection.drain(..) {
                                 let parent_id = xml_doc_mut
                                     .append_child_mut("si", None)
-- 
2.43.0


From 720179a0d192c82f96a8a33c2ba8707e5a0c60a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 20/30] fix: keep children added to an element holding only
 white space

---
 rs/src/files/xml/xml_tree.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index 616f985..cbb8d15 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -604,7 +604,19 @@ impl XmlElement {
         self.value = None;
     }
 
+    /// White space kept as value was only layout once the element has a child
+    fn clear_layout_value_mut(&mut self) {
+        if self
+            .value
+            .as_ref()
+            .is_some_and(|value| value.chars().all(|c| matches!(c, ' ' | '\t' | '\n' | '\r')))
+        {
+            self.clear_value_mut();
+        }
+    }
+
     fn append_children_mut(&mut self, child_id: usize, tag: &str) -> AnyResult<(), AnyError> {
+        self.clear_layout_value_mut();
         self.children
             .try_borrow_mut()
             .context("Failed to Pull children handle")?
@@ -616,6 +628,7 @@ impl XmlElement {
     }
 
     fn insert_children_before_tag_mut(&mut self, child_id: usize, tag: &str, find_tag: &str) {
+        self.clear_layout_value_mut();
         let mut children = self.children.borrow_mut();
         if let Some(index) = children.iter().position(|item| item.tag == find_tag) {
             children.insert(
@@ -637,6 +650,7 @@ impl XmlElement {
     }
 
     fn insert_children_after_tag_mut(&mut self, child_id: usize, tag: &str, find_tag: &str) {
+        self.clear_layout_value_mut();
         let mut children = self.children.borrow_mut();
         if let Some(index) = children.iter().rposition(|item| item.tag == find_tag) {
             children.insert(
@@ -655,6 +669,7 @@ impl XmlElement {
     }
 
     fn insert_children_at_mut(&mut self, child_id: usize, position: usize, tag: &str) {
+        self.clear_layout_value_mut();
         self.children.borrow_mut().insert(
             position,
             XmlElementChild {
-- 
2.43.0


From 7bf85918642e8424771031fc65655cf5c67eba3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:30 +0000
Subject: [PATCH 21/30] fix: refuse XML which is not well-formed

---
 rs/src/files/xml/xml_serialize.rs | 92 ++++++++++++++++++++++++++++---
 1 file changed, 85 insertions(+), 7 deletions(-)

diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index 0818d0a..68319dd 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -3,12 +3,13 @@ use crate::files::XmlDocument;
 use crate::log_elapsed;
 use anyhow::{anyhow, Context, Error as AnyError, Ok, Result as AnyResult};
 use quick_xml::escape::unescape;
-use quick_xml::events::BytesStart;
+use quick_xml::events::{BytesDecl, BytesStart};
 use quick_xml::{
     events::{
         attributes::{AttrError, Attribute},
         Event,
     },
+    name::ResolveResult,
     NsReader,
 };
 use std::{collections::HashMap, io::Cursor};
@@ -53,15 +54,26 @@ impl XmlSerializer {
     ) -> AnyResult<(), AnyError> {
         let mut temp_buffer: Vec<u8> = Vec::new();
         let mut root_loaded = false;
+        let mut document_start = true;
+        reader.config_mut().check_comments = true;
         // Element ids from the root down to the element currently open
         let mut open_elements: Vec<usize> = Vec::new();
         let mut main_prefix: Option<MainPrefix> = None;
         loop {
-            match reader.read_event_into(&mut temp_buffer) {
+            let event = reader.read_event_into(&mut temp_buffer);
+            if let Result::Ok(Event::Start(element) | Event::Empty(element)) = &event {
+                Self::check_tag(reader, element)?;
+            }
+            match event {
                 // Handle errors
                 Err(e) => break Err(e.into()),
                 // Read XML declaration
-                Result::Ok(Event::Decl(_)) => {}
+                Result::Ok(Event::Decl(declaration)) => {
+                    if !document_start {
+                        return Err(anyhow!("XML declaration found after the start."));
+                    }
+                    Self::check_declaration(&declaration)?;
+                }
                 // Read start tag and attributes
                 Result::Ok(Event::Start(element)) => {
                     let element_id = Self::insert_element(
@@ -88,10 +100,12 @@ impl XmlSerializer {
 
                 // Read text content
                 Result::Ok(Event::Text(byte_text)) => {
-                    let text = std::str::from_utf8(&byte_text)
-                        .context("XML Text is not valid UTF-8")?
-                        .replace("\r\n", "\n")
-                        .replace('\r', "\n");
+                    let text =
+                        std::str::from_utf8(&byte_text).context("XML Text is not valid UTF-8")?;
+                    if text.contains("]]>") {
+                        return Err(anyhow!("XML Text has the end of a CDATA section."));
+                    }
+                    let text = text.replace("\r\n", "\n").replace('\r', "\n");
                     let text = unescape(&text).context("XML Text parsing error")?;
                     Self::append_text(&text, xml_document, open_elements.last())?;
                 }
@@ -123,13 +137,77 @@ impl XmlSerializer {
                     }
                 }
 
+                // Processing instructions have no meaning for the part
+                Result::Ok(Event::PI(instruction)) => {
+                    if instruction.target().eq_ignore_ascii_case(b"xml") {
+                        return Err(anyhow!("XML declaration is not valid."));
+                    }
+                }
+
                 // Default case for other events
                 _ => {}
             }
+            document_start = false;
             temp_buffer.clear();
         }
     }
 
+    fn check_declaration(declaration: &BytesDecl) -> AnyResult<(), AnyError> {
+        let version = declaration
+            .version()
+            .context("XML declaration has no version")?;
+        if version.as_ref() != b"1.0" {
+            return Err(anyhow!("XML version is not supported."));
+        }
+        if let Some(standalone) = declaration.standalone() {
+            let standalone = standalone.context("XML declaration is not valid")?;
+            if standalone.as_ref() != b"yes" && standalone.as_ref() != b"no" {
+                return Err(anyhow!("XML declaration is not valid."));
+            }
+        }
+        Ok(())
+    }
+
+    /// Well-formedness of a start tag the reader does not check on its own
+    fn check_tag(
+        reader: &NsReader<Cursor<Vec<u8>>>,
+        element: &BytesStart,
+    ) -> AnyResult<(), AnyError> {
+        let mut quote: Option<u8> = None;
+        let mut value_closed = false;
+        for byte in element.attributes_raw().iter().copied() {
+            if let Some(open_quote) = quote {
+                if byte == b'<' {
+                    return Err(anyhow!("XML Attribute value has an unescaped character."));
+                }
+                if byte == open_quote {
+                    quote = None;
+                    value_closed = true;
+                }
+            } else {
+                if value_closed && !byte.is_ascii_whitespace() {
+                    return Err(anyhow!("XML Attributes are not separated."));
+                }
+                value_closed = false;
+                if byte == b'"' || byte == b'\'' {
+                    quote = Some(byte);
+                }
+            }
+        }
+        if let (ResolveResult::Unknown(_), _) = reader.resolve_element(element.name()) {
+            return Err(anyhow!("XML Element uses a namespace prefix not declared."));
+        }
+        for attribute in element.attributes() {
+            let attribute = attribute.context("Failed to parse attribute")?;
+            if let (ResolveResult::Unknown(_), _) = reader.resolve_attribute(attribute.key) {
+                return Err(anyhow!(
+                    "XML Attribute uses a namespace prefix not declared."
+                ));
+            }
+        }
+        Ok(())
+    }
+
     /// Add the element to the tree and return its id
     fn insert_element(
         element: BytesStart,
-- 
2.43.0


From bb3b6ebdc91daa332995b81f765ac848c5f75913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 22/30] fix: resolve elements by namespace wherever it is
 declared

---
 rs/src/files/xml/xml_serialize.rs | 144 ++++++++++++++++--------------
 1 file changed, 79 insertions(+), 65 deletions(-)

diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index 68319dd..6160e1d 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -21,12 +21,78 @@ const MAIN_NAMESPACES: [&str; 3] = [
     "http://schemas.openxmlformats.org/package/2006/content-types",
 ];
 
-/// Prefix bound to the main namespace, its elements are loaded without prefix
-struct MainPrefix {
-    /// Prefix with the colon
-    prefix: String,
-    /// Depth of the open element that declares the prefix or default namespace again
-    redeclared_depth: Option<usize>,
+/// Namespaces in scope while the elements are loaded
+#[derive(Default)]
+struct NamespaceScope {
+    /// Namespace of the root if its elements are handled without prefix
+    main: Option<String>,
+    /// Depth, prefix and namespace of the declarations in the file
+    declared: Vec<(usize, String, String)>,
+    /// Depth and namespace of the default namespace the loaded elements have
+    default: Vec<(usize, String)>,
+}
+
+impl NamespaceScope {
+    /// Load the elements of the main namespace without prefix however the file spells them
+    fn enter(&mut self, tag: &mut String, attributes: &mut HashMap<String, String>, depth: usize) {
+        let source_default = attributes.remove("xmlns");
+        if let Some(namespace) = &source_default {
+            self.declared
+                .push((depth, String::new(), namespace.to_string()));
+        }
+        attributes.retain(|key, namespace| {
+            let Some(prefix) = key.strip_prefix("xmlns:") else {
+                return true;
+            };
+            // Declaration already in scope
+            if self.namespace_of(prefix) == namespace.as_str() {
+                return false;
+            }
+            self.declared
+                .push((depth, prefix.to_string(), namespace.to_string()));
+            true
+        });
+        let (prefix, local_name) = tag.split_once(':').unwrap_or(("", tag.as_str()));
+        let namespace = self.namespace_of(prefix).to_string();
+        if depth == 0 && MAIN_NAMESPACES.contains(&namespace.as_str()) {
+            self.main = Some(namespace.clone());
+        }
+        let active_default = self
+            .default
+            .last()
+            .map(|(_, namespace)| namespace.to_string())
+            .unwrap_or_default();
+        let is_main = self.main.as_ref() == Some(&namespace);
+        let new_default = if is_main && (depth == 0 || active_default == namespace) {
+            *tag = local_name.to_string();
+            namespace
+        } else if prefix.is_empty() {
+            namespace
+        } else {
+            source_default.unwrap_or(active_default.clone())
+        };
+        if new_default != active_default {
+            attributes.insert("xmlns".to_string(), new_default.clone());
+            self.default.push((depth, new_default));
+        }
+    }
+
+    /// Forget what the element closed at the depth declared
+    fn leave(&mut self, depth: usize) {
+        self.declared
+            .retain(|(declared_depth, _, _)| *declared_depth < depth);
+        self.default
+            .retain(|(declared_depth, _)| *declared_depth < depth);
+    }
+
+    fn namespace_of(&self, prefix: &str) -> &str {
+        self.declared
+            .iter()
+            .rev()
+            .find(|(_, declared_prefix, _)| declared_prefix == prefix)
+            .map(|(_, _, namespace)| namespace.as_str())
+            .unwrap_or_default()
+    }
 }
 
 pub struct XmlSerializer {}
@@ -58,7 +124,7 @@ impl XmlSerializer {
         reader.config_mut().check_comments = true;
         // Element ids from the root down to the element currently open
         let mut open_elements: Vec<usize> = Vec::new();
-        let mut main_prefix: Option<MainPrefix> = None;
+        let mut namespace_scope = NamespaceScope::default();
         loop {
             let event = reader.read_event_into(&mut temp_buffer);
             if let Result::Ok(Event::Start(element) | Event::Empty(element)) = &event {
@@ -81,7 +147,7 @@ impl XmlSerializer {
                         xml_document,
                         &open_elements,
                         &mut root_loaded,
-                        &mut main_prefix,
+                        &mut namespace_scope,
                     )?;
                     open_elements.push(element_id);
                 }
@@ -93,9 +159,9 @@ impl XmlSerializer {
                         xml_document,
                         &open_elements,
                         &mut root_loaded,
-                        &mut main_prefix,
+                        &mut namespace_scope,
                     )?;
-                    Self::leave_element(&mut main_prefix, open_elements.len());
+                    namespace_scope.leave(open_elements.len());
                 }
 
                 // Read text content
@@ -125,7 +191,7 @@ impl XmlSerializer {
                     open_elements
                         .pop()
                         .ok_or(anyhow!("Invalid XML Tree Parsing Failed."))?;
-                    Self::leave_element(&mut main_prefix, open_elements.len());
+                    namespace_scope.leave(open_elements.len());
                 }
 
                 // End of file
@@ -214,14 +280,14 @@ impl XmlSerializer {
         xml_document: &mut XmlDocument,
         open_elements: &[usize],
         root_loaded: &mut bool,
-        main_prefix: &mut Option<MainPrefix>,
+        namespace_scope: &mut NamespaceScope,
     ) -> AnyResult<usize, AnyError> {
         let parent_id = open_elements.last();
         let mut tag: String = std::str::from_utf8(element.name().into_inner())
             .context("XML Tag is not valid UTF-8")?
             .to_string();
         let mut attributes = Self::get_attributes_string(element)?;
-        Self::resolve_main_prefix(&mut tag, &mut attributes, open_elements.len(), main_prefix);
+        namespace_scope.enter(&mut tag, &mut attributes, open_elements.len());
         let new_element = if let Some(parent_id) = parent_id {
             // Indentation before a child is not content
             if let Some(parent) = xml_document.get_element_mut(parent_id) {
@@ -249,58 +315,6 @@ impl XmlSerializer {
             .get_id())
     }
 
-    /// Use the main namespace as default namespace if the root binds it to a prefix
-    fn resolve_main_prefix(
-        tag: &mut String,
-        attributes: &mut HashMap<String, String>,
-        depth: usize,
-        main_prefix: &mut Option<MainPrefix>,
-    ) {
-        if depth == 0 {
-            let Some((prefix, local_name)) = tag.split_once(':') else {
-                return;
-            };
-            let Some(namespace) = attributes.get(&format!("xmlns:{}", prefix)).cloned() else {
-                return;
-            };
-            if MAIN_NAMESPACES.contains(&namespace.as_str()) && !attributes.contains_key("xmlns") {
-                *main_prefix = Some(MainPrefix {
-                    prefix: format!("{}:", prefix),
-                    redeclared_depth: None,
-                });
-                *tag = local_name.to_string();
-                attributes.insert("xmlns".to_string(), namespace);
-            }
-        } else if let Some(main_prefix) = main_prefix {
-            if main_prefix.redeclared_depth.is_some() {
-                return;
-            }
-            if attributes.contains_key("xmlns")
-                || attributes.contains_key(&format!(
-                    "xmlns:{}",
-                    main_prefix.prefix.trim_end_matches(':')
-                ))
-            {
-                main_prefix.redeclared_depth = Some(depth);
-            } else if let Some(local_name) = tag.strip_prefix(&main_prefix.prefix) {
-                *tag = local_name.to_string();
-            } else if !tag.contains(':') {
-                // Stay without namespace
-                attributes.insert("xmlns".to_string(), String::new());
-                main_prefix.redeclared_depth = Some(depth);
-            }
-        }
-    }
-
-    /// Main prefix is back in scope once the element that declares it again is closed
-    fn leave_element(main_prefix: &mut Option<MainPrefix>, depth: usize) {
-        if let Some(main_prefix) = main_prefix {
-            if main_prefix.redeclared_depth == Some(depth) {
-                main_prefix.redeclared_depth = None;
-            }
-        }
-    }
-
     /// Append text to the open element, keeping white space of elements without child
     fn append_text(
         text: &str,
-- 
2.43.0


From 4dda1be6c66b9b804dcdb6c710d99479c6366330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:32 +0000
Subject: [PATCH 23/30] fix: keep links, permissions and special files when a
 save replaces its target

The save wrote a new file over whatever the target named: a link was replaced by
a plain file, a private file became readable by others, a write protected file
was overwritten and a device node was replaced.
---
 rs/src/files/office_document.rs | 35 ++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/rs/src/files/office_document.rs b/rs/src/files/office_document.rs
index edf5701..7f00815 100644
--- a/rs/src/files/office_document.rs
+++ b/rs/src/files/office_document.rs
@@ -7,7 +7,7 @@ use anyhow::{anyhow, Context, Error as AnyError, Result as AnyResult};
 use std::{
     cell::RefCell,
     collections::{BTreeMap, HashMap},
-    fs::{remove_file, rename, File},
+    fs::{canonicalize, metadata, remove_file, rename, File, Metadata, OpenOptions},
     io::{Cursor, Read, Write},
     path::Path,
     rc::{Rc, Weak},
@@ -188,22 +188,47 @@ impl OfficeDocument {
         let file_content: Vec<u8> = self
             .save_database_into_archive()
             .context("Save Archive Data into Database")?;
+        // Links are followed, the file they lead to is the one to replace
+        let target_path =
+            canonicalize(file_path).unwrap_or_else(|_| Path::new(file_path).to_path_buf());
+        let existing = metadata(&target_path).ok();
+        if let Some(existing) = &existing {
+            // Refuse a directory or a protected file
+            let mut file = OpenOptions::new()
+                .write(true)
+                .open(&target_path)
+                .context("Open Save File Failed")?;
+            // A device or pipe can't be replaced and is written in place
+            if !existing.is_file() {
+                return file
+                    .write_all(&file_content)
+                    .context("Save File Write Failed");
+            }
+        }
         // Replace the target only after the full content is on disk
-        let target_path = Path::new(file_path);
         if target_path.file_name().is_none() {
             return Err(anyhow!("Save File Target is not a file path"));
         }
         let temp_path = target_path.with_file_name(format!(".{}.tmp", Uuid::new_v4()));
-        let result = Self::write_file(&temp_path, &file_content)
-            .and_then(|_| rename(&temp_path, target_path).context("Replace Save File Failed"));
+        let result = Self::write_file(&temp_path, &file_content, existing)
+            .and_then(|_| rename(&temp_path, &target_path).context("Replace Save File Failed"));
         if result.is_err() {
             let _ = remove_file(&temp_path);
         }
         result
     }
 
-    fn write_file(file_path: &Path, file_content: &[u8]) -> AnyResult<(), AnyError> {
+    fn write_file(
+        file_path: &Path,
+        file_content: &[u8],
+        existing: Option<Metadata>,
+    ) -> AnyResult<(), AnyError> {
         let mut file = File::create(file_path).context("Create Save File Failed")?;
+        if let Some(existing) = existing {
+            // The file keeps the permissions of the one it replaces
+            file.set_permissions(existing.permissions())
+                .context("Set Save File Permission Failed")?;
+        }
         file.write_all(file_content)
             .context("Save File Write Failed")?;
         file.sync_all().context("Save File Write Failed")
-- 
2.43.0


From b1d1c8d0586a52a0cecd5698c664e85a11f67968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:59 +0000
Subject: [PATCH 24/30] fix: read attributes and text in time proportional to
 their size

Each attribute was compared with all others of its element and the text of an
element was copied for every piece added, a small file could keep a reader busy
for minutes.
---
 rs/src/files/xml/xml_serialize.rs | 50 ++++++++++++++-----------------
 rs/src/files/xml/xml_tree.rs      |  6 ++++
 2 files changed, 29 insertions(+), 27 deletions(-)

diff --git a/rs/src/files/xml/xml_serialize.rs b/rs/src/files/xml/xml_serialize.rs
index 6160e1d..56e195c 100644
--- a/rs/src/files/xml/xml_serialize.rs
+++ b/rs/src/files/xml/xml_serialize.rs
@@ -5,10 +5,7 @@ use anyhow::{anyhow, Context, Error as AnyError, Ok, Result as AnyResult};
 use quick_xml::escape::unescape;
 use quick_xml::events::{BytesDecl, BytesStart};
 use quick_xml::{
-    events::{
-        attributes::{AttrError, Attribute},
-        Event,
-    },
+    events::{attributes::Attribute, Event},
     name::ResolveResult,
     NsReader,
 };
@@ -263,7 +260,8 @@ impl XmlSerializer {
         if let (ResolveResult::Unknown(_), _) = reader.resolve_element(element.name()) {
             return Err(anyhow!("XML Element uses a namespace prefix not declared."));
         }
-        for attribute in element.attributes() {
+        // Names used twice are found while the attributes are collected
+        for attribute in element.attributes().with_checks(false) {
             let attribute = attribute.context("Failed to parse attribute")?;
             if let (ResolveResult::Unknown(_), _) = reader.resolve_attribute(attribute.key) {
                 return Err(anyhow!(
@@ -334,9 +332,7 @@ impl XmlSerializer {
                     return Err(anyhow!("XML element with text and child not supported."));
                 }
             } else {
-                let mut value = element.get_value().clone().unwrap_or_default();
-                value.push_str(text);
-                element.set_value_mut(value);
+                element.append_value_mut(text);
             }
             Ok(())
         } else if Self::is_white_space(text) {
@@ -351,24 +347,24 @@ impl XmlSerializer {
     }
 
     fn get_attributes_string(element: BytesStart) -> AnyResult<HashMap<String, String>, AnyError> {
-        element
-            .attributes()
-            .map(|attribute_result: Result<Attribute<'_>, AttrError>| {
-                let attribute: Attribute<'_> =
-                    attribute_result.context("Failed to parse attribute")?;
-                let key: String = std::str::from_utf8(attribute.key.into_inner())
-                    .context("XML Attribute name is not valid UTF-8")?
-                    .to_string();
-                let value = std::str::from_utf8(&attribute.value)
-                    .context("XML Attribute value is not valid UTF-8")?
-                    .replace("\r\n", " ")
-                    .replace(['\t', '\n', '\r'], " ");
-                let value = unescape(&value).context("XML Attribute value parsing error")?;
-                if !value.chars().all(is_xml_char) {
-                    return Err(anyhow!("XML Attribute has a character not allowed in XML."));
-                }
-                Ok((key, value.to_string()))
-            })
-            .collect::<AnyResult<HashMap<String, String>>>()
+        let mut attributes: HashMap<String, String> = HashMap::new();
+        for attribute in element.attributes().with_checks(false) {
+            let attribute: Attribute<'_> = attribute.context("Failed to parse attribute")?;
+            let key: String = std::str::from_utf8(attribute.key.into_inner())
+                .context("XML Attribute name is not valid UTF-8")?
+                .to_string();
+            let value = std::str::from_utf8(&attribute.value)
+                .context("XML Attribute value is not valid UTF-8")?
+                .replace("\r\n", " ")
+                .replace(['\t', '\n', '\r'], " ");
+            let value = unescape(&value).context("XML Attribute value parsing error")?;
+            if !value.chars().all(is_xml_char) {
+                return Err(anyhow!("XML Attribute has a character not allowed in XML."));
+            }
+            if attributes.insert(key, value.to_string()).is_some() {
+                return Err(anyhow!("XML Attribute is used twice."));
+            }
+        }
+        Ok(attributes)
     }
 }
diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index cbb8d15..e6c09ec 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -590,6 +590,12 @@ impl XmlElement {
         self
     }
 
+    /// Add to the text of the element
+    pub(crate) fn append_value_mut(&mut self, text: &str) -> &mut Self {
+        self.value.get_or_insert_with(String::new).push_str(text);
+        self
+    }
+
     /// Set text of which the consumer should not remove the outer white space
     pub(crate) fn set_preserved_value_mut(&mut self, text: String) -> &mut Self {
         if text.starts_with(char::is_whitespace) || text.ends_with(char::is_whitespace) {
-- 
2.43.0


From 63b24a450ef6449b15922b9cc2eeba03618b122f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 25/30] fix: resolve relationship targets in directories whose
 name contains _rels

---
 rs/src/global/global_2007/parts/relations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/src/global/global_2007/parts/relations.rs b/rs/src/global/global_2007/parts/relations.rs
index 54d9fb5..d219da2 100644
--- a/rs/src/global/global_2007/parts/relations.rs
+++ b/rs/src/global/global_2007/parts/relations.rs
@@ -148,7 +148,7 @@ impl RelationsPart {
     pub(crate) fn get_relative_path(&self) -> AnyResult<String, AnyError> {
         let rels_position = self
             .file_path
-            .find("_rels")
+            .rfind("_rels/")
             .ok_or(anyhow!("Failed to string Prefix path from relation"))?;
         if rels_position > 0 {
             Ok(format!("{}/", &self.file_path[..rels_position - 1]))
-- 
2.43.0


From 3fed9fe24b354a2d584b2aa4dac1fc9d5ed381b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 26/30] fix: keep markup compatibility elements next to their
 siblings

---
 rs/src/global/references/order_dictionary.rs           | 2 +-
 rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs  | 4 ++--
 rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rs/src/global/references/order_dictionary.rs b/rs/src/global/references/order_dictionary.rs
index 1eb8c4c..f85b33e 100644
--- a/rs/src/global/references/order_dictionary.rs
+++ b/rs/src/global/references/order_dictionary.rs
@@ -3,7 +3,7 @@ use phf::{phf_map, Map};
 pub(crate) static EXCEL_ORDER_COLLECTION: Map<&'static str, &'static [&'static str]> = phf_map! {
     "workbook" => &[
         "fileVersion", "fileSharing", "workbookPr",
-        "mc:AlternateContent", "xr:revisionPtr", "workbookProtection",
+        "xr:revisionPtr", "workbookProtection",
         "bookViews", "sheets", "functionGroups", "externalReferences",
         "definedNames", "calcPr", "oleSize", "customWorkbookViews",
         "pivotCaches", "smartTagPr", "smartTagTypes", "webPublishing",
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index 7c9c0e5..cc8ee37 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -340,7 +340,7 @@ impl WorkbookPart {
                     {
                         Some(book_views_id) => book_views_id,
                         None => xml_doc_mut
-                            .insert_children_after_tag_mut("bookViews", "fileVersion", None)
+                            .append_child_mut("bookViews", None)
                             .context("Create book viewsD Node Failed")?
                             .get_id(),
                     };
@@ -377,7 +377,7 @@ impl WorkbookPart {
         {
             Some(sheets_id) => sheets_id,
             None => xml_doc_mut
-                .insert_children_after_tag_mut("sheets", "bookViews", None)
+                .append_child_mut("sheets", None)
                 .context("Create Sheets Node Failed")?
                 .get_id(),
         };
diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
index c88d910..ba73dbd 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/worksheet.rs
@@ -286,7 +286,7 @@ impl WorkSheet {
                 .get_element_mut(&dimension_id)
                 .ok_or(anyhow!("Dimension Element Not Found"))?,
             None => xml_doc_mut
-                .insert_child_at_mut("dimension", &0, None)
+                .append_child_mut("dimension", None)
                 .context("Failed to Add Dimension node to worksheet")?,
         };
         let mut dimension_attribute = dimension.get_attribute().cloned().unwrap_or_default();
@@ -310,7 +310,7 @@ impl WorkSheet {
                 let cols_id = match cols_ids.first() {
                     Some(cols_id) => *cols_id,
                     None => xml_doc_mut
-                        .insert_child_at_mut("cols", &0, None)
+                        .append_child_mut("cols", None)
                         .context("Failed to Insert Cols Element")?
                         .get_id(),
                 };
@@ -337,7 +337,7 @@ impl WorkSheet {
         {
             Some(sheet_data_id) => sheet_data_id,
             None => xml_doc_mut
-                .insert_child_at_mut("sheetData", &0, None)
+                .append_child_mut("sheetData", None)
                 .context("Failed to Insert Sheet Data Element")?
                 .get_id(),
         };
-- 
2.43.0


From 58460cf14b3f639648cf2e5873e21b9a22a05307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:22 +0000
Subject: [PATCH 27/30] fix: refuse names with an empty or wrong prefix or
 local part

---
 rs/src/files/xml/xml_tree.rs | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/rs/src/files/xml/xml_tree.rs b/rs/src/files/xml/xml_tree.rs
index e6c09ec..763446f 100644
--- a/rs/src/files/xml/xml_tree.rs
+++ b/rs/src/files/xml/xml_tree.rs
@@ -408,30 +408,15 @@ impl XmlElement {
         fn is_name_char(c: char) -> bool {
             is_name_start_char(c)
                 || c.is_ascii_digit()
-                || matches!(c, '-' | '.' | ':' | '\u{B7}' | '\u{300}'..='\u{36F}'
+                || matches!(c, '-' | '.' | '\u{B7}' | '\u{300}'..='\u{36F}'
                     | '\u{203F}'..='\u{2040}')
         }
-        if name.is_empty() {
-            return false;
-        }
-        let mut chars = name.chars();
-        if let Some(first_char) = chars.next() {
-            if !is_name_start_char(first_char) {
-                return false;
-            }
-        }
-        let mut colon_count = 0;
-        for c in chars {
-            if c == ':' {
-                colon_count += 1;
-                if colon_count > 1 {
-                    return false;
-                }
-            } else if !is_name_char(c) {
-                return false;
-            }
-        }
-        true
+        // Local name with an optional prefix
+        name.split(':').count() <= 2
+            && name.split(':').all(|name_part| {
+                let mut chars = name_part.chars();
+                chars.next().is_some_and(is_name_start_char) && chars.all(is_name_char)
+            })
     }
 
     // ######################## Data Read Only Methods ###########################
-- 
2.43.0


From 3ff0d9e67181b1145a1713fa2a02c89629ca3848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:19 +0000
Subject: [PATCH 28/30] fix: remove the relationships of a dropped shared
 string or calculation chain part

---
 .../spreadsheet_2007/services/calculation_chain.rs       | 9 ++++++---
 .../spreadsheet_2007/services/share_string.rs            | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs b/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
index 640d5fa..e836620 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/calculation_chain.rs
@@ -57,10 +57,13 @@ impl XmlDocumentPartCommon for CalculationChainPart {
                                 .try_borrow_mut()
                                 .context("Failed To pull parent relation ship part of Calc Chain")?
                                 .delete_relationship_mut(&self.file_path);
-                            office_doc_ref
+                            let mut office_document = office_doc_ref
                                 .try_borrow_mut()
-                                .context("Failed to Borrow Share Tree")?
-                                .delete_document_mut(&self.file_path);
+                                .context("Failed to Borrow Share Tree")?;
+                            office_document.delete_document_mut(&self.file_path);
+                            office_document.delete_document_mut(
+                                &RelationsPart::get_relation_path(&self.file_path),
+                            );
                         }
                     }
                 }
diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
index 5c284c5..0ef8c82 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
@@ -80,10 +80,13 @@ impl XmlDocumentPartCommon for ShareStringPart {
                                     "Failed To pull parent relation ship part of Share String",
                                 )?
                                 .delete_relationship_mut(&self.file_path);
-                            office_doc_ref
+                            let mut office_document = office_doc_ref
                                 .try_borrow_mut()
-                                .context("Failed To pull XML Handle")?
-                                .delete_document_mut(&self.file_path);
+                                .context("Failed To pull XML Handle")?;
+                            office_document.delete_document_mut(&self.file_path);
+                            office_document.delete_document_mut(
+                                &RelationsPart::get_relation_path(&self.file_path),
+                            );
                         }
                     }
                 }
-- 
2.43.0


From 01dcf528885433abab5a81bd443a47a84ecd4d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:48 +0000
Subject: [PATCH 29/30] fix: a shared string spelled with xml:space="default"
 is not one that keeps its outer white space

---
 rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
index 0ef8c82..3fd49d7 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/services/share_string.rs
@@ -191,7 +191,8 @@ impl ShareStringPart {
                             let is_preserved = text.trim() == text
                                 || text_element
                                     .get_attribute()
-                                    .is_some_and(|item| item.contains_key("xml:space"));
+                                    .and_then(|item| item.get("xml:space"))
+                                    .is_some_and(|item| item == "preserve");
                             if text_element.get_tag() == "t" && is_preserved {
                                 share_string_collection.entry(text).or_insert(source_count);
                             }
-- 
2.43.0


From 1282923dbf3fe2b8a96fe6df635def9618974d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:20 +0000
Subject: [PATCH 30/30] fix: let the sheet index of every workbook view follow
 its sheet

After sheets were deleted only the first workbookView had its activeTab and
firstSheet corrected, further windows pointed at other or missing sheets.
---
 .../spreadsheet_2007/parts/workbook.rs        | 75 +++++++++++--------
 1 file changed, 44 insertions(+), 31 deletions(-)

diff --git a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
index cc8ee37..1a19f07 100644
--- a/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
+++ b/rs/src/spreadsheet/spreadsheet_2007/parts/workbook.rs
@@ -290,47 +290,60 @@ impl WorkbookPart {
             .unwrap_or_default()
     }
 
-    /// Update the first workbook view with only the values set
+    /// Update the first workbook view with only the values set. The sheet index of every view follows the sheet
     fn save_workbook_view(&self, xml_doc_mut: &mut XmlDocument) -> AnyResult<(), AnyError> {
-        let view_id = Self::get_child_ids(xml_doc_mut, "bookViews", "workbookView")
-            .first()
-            .copied();
-        let mut attributes = view_id
-            .and_then(|view_id| xml_doc_mut.get_element(&view_id))
-            .and_then(|item| item.get_attribute().cloned())
-            .unwrap_or_default();
-        let source_attributes = attributes.clone();
-        for (key, value) in &self.workbook_view_updates {
-            attributes.insert(key.to_string(), value.clone());
+        let mut view_ids = Self::get_child_ids(xml_doc_mut, "bookViews", "workbookView")
+            .into_iter()
+            .map(Some)
+            .collect::<Vec<Option<usize>>>();
+        if view_ids.is_empty() {
+            view_ids.push(None);
         }
-        // Sheet index follows the sheet
         let sheet_collection = self
             .sheet_collection
             .try_borrow()
             .context("Failed to pull Sheet Name Collection")?;
-        for key in ["firstSheet", "activeTab"] {
-            let source_index = match attributes.get(key) {
-                Some(value) => value.trim().parse::<usize>().unwrap_or(0),
-                None => 0,
-            };
-            let mut index = sheet_collection
-                .iter()
-                .position(|item| {
-                    item.source
-                        .as_ref()
-                        .is_some_and(|(position, _)| *position == source_index)
-                })
-                .unwrap_or(source_index.min(sheet_collection.len().saturating_sub(1)));
-            if key == "activeTab" {
-                if let Some(position) = sheet_collection.iter().position(|item| item.is_active) {
+        let active_position = sheet_collection.iter().position(|item| item.is_active);
+        let positions = sheet_collection
+            .iter()
+            .enumerate()
+            .filter_map(|(position, item)| {
+                item.source
+                    .as_ref()
+                    .map(|(source_position, _)| (*source_position, position))
+            })
+            .collect::<HashMap<usize, usize>>();
+        for (view_position, view_id) in view_ids.into_iter().enumerate() {
+            let mut attributes = view_id
+                .and_then(|view_id| xml_doc_mut.get_element(&view_id))
+                .and_then(|item| item.get_attribute().cloned())
+                .unwrap_or_default();
+            let source_attributes = attributes.clone();
+            if view_position == 0 {
+                for (key, value) in &self.workbook_view_updates {
+                    attributes.insert(key.to_string(), value.clone());
+                }
+            }
+            // Sheet index follows the sheet
+            for key in ["firstSheet", "activeTab"] {
+                let source_index = match attributes.get(key) {
+                    Some(value) => value.trim().parse::<usize>().unwrap_or(0),
+                    None => 0,
+                };
+                let mut index = positions
+                    .get(&source_index)
+                    .copied()
+                    .unwrap_or(source_index.min(sheet_collection.len().saturating_sub(1)));
+                if let ("activeTab", 0, Some(position)) = (key, view_position, active_position) {
                     index = position;
                 }
+                if index != source_index {
+                    attributes.insert(key.to_string(), index.to_string());
+                }
             }
-            if index != source_index {
-                attributes.insert(key.to_string(), index.to_string());
+            if attributes == source_attributes {
+                continue;
             }
-        }
-        if attributes != source_attributes {
             let view_id = match view_id {
                 Some(view_id) => view_id,
                 None => {
-- 
2.43.0

