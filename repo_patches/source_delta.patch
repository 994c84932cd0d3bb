From 2713e6e6ff2ca7d5148db71c1af14ad910512c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:28 +0000
Subject: [PATCH 01/50] fix: expat wrapper reported endPrefixMapping for
 elements that declare no prefixes

---
 include/SAX/wrappers/saxexpat.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index a795550..63139e1 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -689,14 +689,14 @@ void expat_wrapper<string_type, T0, T1>::endElement(const char* qName)
 
   qualifiedNameT name = processName(SA::construct_from_utf8(qName), false);
   contentHandler_->endElement(name.namespaceUri(), name.localName(), name.rawName());
-  typename namespaceSupportT::stringListT prefixes = nsSupport_.getDeclaredPrefixes();
-  for(size_t i = 0, end = prefixes.size(); i < end; ++i)
-    contentHandler_->endPrefixMapping(prefixes[i]);
   
   bool pushedContext = namespaceContextCreated_.back();
   namespaceContextCreated_.pop_back();
   if (pushedContext)
   {
+    typename namespaceSupportT::stringListT prefixes = nsSupport_.getDeclaredPrefixes();
+    for(size_t i = 0, end = prefixes.size(); i < end; ++i)
+      contentHandler_->endPrefixMapping(prefixes[i]);
     nsSupport_.popContext();
   }
 } // endElement
-- 
2.43.0


From c69c892677e776babf10719946465407665d2a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:09 +0000
Subject: [PATCH 02/50] fix: names and character data held as UTF-8 were
 checked byte by byte, so non-ASCII names were rejected

---
 include/DOM/Simple/NodeImpl.hpp |  9 ++++---
 include/XML/strings.hpp         | 44 +++++++++++++++++++++++++++++----
 2 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index e9a8586..b69ff1a 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -10,6 +10,7 @@
 #include <DOM/Events/EventListener.hpp>
 #include <DOM/DOMException.hpp>
 #include <XML/XMLCharacterClasses.hpp>
+#include <XML/strings.hpp>
 #include <deque>
 #include <algorithm>
 #include <map>
@@ -213,8 +214,8 @@ class NodeImpl : virtual public DOM::Node_impl<stringT, string_adaptorT>
       typedef typename string_adaptorT::const_iterator const_iterator;
       const_iterator i = string_adaptorT::begin(str);
       const_iterator ie = string_adaptorT::end(str);
-      for( ; i != ie; ++i)
-	if(!XML::is_name_char(*i))
+      while(i != ie)
+	if(!XML::is_name_char(XML::next_character(i, ie, typename string_adaptorT::value_type())))
 	  throw DOM::DOMException(DOM::DOMException::INVALID_CHARACTER_ERR);
     } // checkName
 
@@ -223,8 +224,8 @@ class NodeImpl : virtual public DOM::Node_impl<stringT, string_adaptorT>
       typedef typename string_adaptorT::const_iterator const_iterator;
       const_iterator i = string_adaptorT::begin(str);
       const_iterator ie = string_adaptorT::end(str);
-      for( ; i != ie; ++i)
-	if(!XML::is_char(*i))
+      while(i != ie)
+	if(!XML::is_char(XML::next_character(i, ie, typename string_adaptorT::value_type())))
 	  throw DOM::DOMException(DOM::DOMException::INVALID_CHARACTER_ERR);
     } // checkChars
 
diff --git a/include/XML/strings.hpp b/include/XML/strings.hpp
index fb01057..61055b9 100755
--- a/include/XML/strings.hpp
+++ b/include/XML/strings.hpp
@@ -20,6 +20,41 @@ namespace Arabica
 {
 namespace XML
 {
+  // A narrow string holds UTF-8, so one character can span several units.
+  // Malformed sequences give a value which isn't a character at all.
+  template<typename iterator>
+  inline wchar_t next_character(iterator& s, const iterator& e, char)
+  {
+    unsigned char lead = static_cast<unsigned char>(*s);
+    ++s;
+    if(lead < 0x80)
+      return lead;
+
+    const wchar_t not_a_char = 0xFFFF;
+    int trailing = ((lead & 0xE0) == 0xC0) ? 1 :
+                   ((lead & 0xF0) == 0xE0) ? 2 :
+                   ((lead & 0xF8) == 0xF0) ? 3 : 0;
+    if(trailing == 0)
+      return not_a_char;
+
+    unsigned long c = lead & (0x3F >> trailing);
+    for( ; trailing != 0; --trailing, ++s)
+    {
+      if(s == e || (static_cast<unsigned char>(*s) & 0xC0) != 0x80)
+        return not_a_char;
+      c = (c << 6) | (static_cast<unsigned char>(*s) & 0x3F);
+    }
+    return static_cast<wchar_t>(c);
+  } // next_character
+
+  template<typename iterator>
+  inline wchar_t next_character(iterator& s, const iterator&, wchar_t)
+  {
+    wchar_t c = *s;
+    ++s;
+    return c;
+  } // next_character
+
   template<typename string_adaptor>
   inline bool is_ncname(const typename string_adaptor::const_iterator& b,
                         const typename string_adaptor::const_iterator& e)
@@ -32,14 +67,13 @@ namespace XML
       return false;  // zero length
 
     const_iterator s = b;
-    if(!(is_letter(*s) || (*s == Unicode<value_type>::LOW_LINE)))
+    wchar_t c = next_character(s, e, value_type());
+    if(!(is_letter(c) || (c == Unicode<wchar_t>::LOW_LINE)))
        return false;
 
-    ++s;
-    for( ; s != e; ++s)
+    while(s != e)
     {
-      value_type c = *s;
-      if(!is_ncname_char(c))
+      if(!is_ncname_char(next_character(s, e, value_type())))
         return false;
     }
     return true;
-- 
2.43.0


From 15262685133332ff02a51859fb74da680a8b0466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:43 +0000
Subject: [PATCH 03/50] fix: attributeDecl reported #IMPLIED (Expat) or
 #REQUIRED (libxml2) for attributes with another default

---
 include/SAX/wrappers/saxexpat.hpp   |  2 +-
 include/SAX/wrappers/saxlibxml2.hpp | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index 63139e1..e71436a 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -853,7 +853,7 @@ void expat_wrapper<string_type, T0, T1>::attListDeclaration(const XML_Char* elna
   default is non-NULL, then this is a "#FIXED" default. */
   if(declHandler_)
   {
-    const string_type* defType = &attrDefaults_.implied;
+    const string_type* defType = dflt ? &emptyString_ : &attrDefaults_.implied;
     if(isrequired)
       defType = dflt ? &attrDefaults_.fixed : &attrDefaults_.required;
     declHandler_->attributeDecl(SA::construct_from_utf8(elname), 
diff --git a/include/SAX/wrappers/saxlibxml2.hpp b/include/SAX/wrappers/saxlibxml2.hpp
index b693b52..2278e4d 100644
--- a/include/SAX/wrappers/saxlibxml2.hpp
+++ b/include/SAX/wrappers/saxlibxml2.hpp
@@ -794,9 +794,19 @@ void libxml2_wrapper<string_type, T0, T1>::SAXattributeDecl(const xmlChar *elem,
   if(!declHandler_)
     return;
 
-  const string_type* defType = &attrDefaults_.implied;
-  if(def)
-    defType = (defaultValue) ? &attrDefaults_.fixed : &attrDefaults_.required;
+  const string_type* defType = &emptyString_;
+  switch(def)
+  {
+    case XML_ATTRIBUTE_REQUIRED:
+      defType = &attrDefaults_.required;
+      break;
+    case XML_ATTRIBUTE_IMPLIED:
+      defType = &attrDefaults_.implied;
+      break;
+    case XML_ATTRIBUTE_FIXED:
+      defType = &attrDefaults_.fixed;
+      break;
+  } // switch
 
   string_type typeStr;
   switch(type)
-- 
2.43.0


From ad485cf392780db911ab6f03676c61ce6aa525fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:57 +0000
Subject: [PATCH 04/50] fix: libxml2 wrapper dereferenced a null content model
 for EMPTY elements and garbled nested and mixed models

---
 include/SAX/wrappers/saxlibxml2.hpp | 69 +++++++++++------------------
 1 file changed, 27 insertions(+), 42 deletions(-)

diff --git a/include/SAX/wrappers/saxlibxml2.hpp b/include/SAX/wrappers/saxlibxml2.hpp
index 2278e4d..42dddaf 100644
--- a/include/SAX/wrappers/saxlibxml2.hpp
+++ b/include/SAX/wrappers/saxlibxml2.hpp
@@ -200,7 +200,7 @@ class libxml2_wrapper :
     virtual void SAXnotationDecl(const xmlChar *name, const xmlChar *publicId, const xmlChar *systemId);
     virtual void SAXunparsedEntityDecl(const xmlChar *name, const xmlChar *publicId, const xmlChar *systemId, const xmlChar *notationName);
     virtual void SAXelementDecl(const xmlChar* name, int type, xmlElementContentPtr content);
-    void convertXML_Content(std::ostream& os, int type, xmlElementContentPtr model, bool isChild) const;
+    void convertXML_Content(std::ostream& os, xmlElementContentPtr model, bool inBrackets) const;
     virtual void SAXattributeDecl(const xmlChar *elem, const xmlChar *fullname, int type, int def, const xmlChar *defaultValue, xmlEnumerationPtr tree);
     string_type stringAttrEnum(xmlEnumerationPtr tree, bool leadingSpace) const;
     virtual void SAXentityDecl(const xmlChar *name, int type, const xmlChar *publicId, const xmlChar *systemId,	xmlChar *content);
@@ -708,15 +708,6 @@ void libxml2_wrapper<string_type, T0, T1>::SAXelementDecl(const xmlChar* name, i
     return;
 
   std::ostringstream os;
-  convertXML_Content(os, type, content, false);
-  declHandler_->elementDecl(string_adaptor::construct_from_utf8(reinterpret_cast<const char*>(name)), string_adaptor::construct_from_utf8(os.str().c_str()));
-} // elementDeclaration
-
-template<class string_type, class T0, class T1>
-void libxml2_wrapper<string_type, T0, T1>::convertXML_Content(std::ostream& os, int type, xmlElementContentPtr model, bool isChild) const
-{
-  char concatenator = ' ';
-
   switch(type)
   {
     case XML_ELEMENT_TYPE_EMPTY:
@@ -724,50 +715,44 @@ void libxml2_wrapper<string_type, T0, T1>::convertXML_Content(std::ostream& os,
       break;
     case XML_ELEMENT_TYPE_ANY:
       os << "ANY";
-      return;
-    case XML_ELEMENT_TYPE_MIXED:
-      if(model->c1 == 0)
-        os << "(#PCDATA)";
-      else
-        os << "(#PCDATA";
-      concatenator = '|';
-      break;
-    case XML_ELEMENT_TYPE_ELEMENT:
       break;
+    default:
+      if(content)
+        convertXML_Content(os, content, true);
   } // switch
+  declHandler_->elementDecl(string_adaptor::construct_from_utf8(reinterpret_cast<const char*>(name)), string_adaptor::construct_from_utf8(os.str().c_str()));
+} // elementDeclaration
+
+template<class string_type, class T0, class T1>
+void libxml2_wrapper<string_type, T0, T1>::convertXML_Content(std::ostream& os, xmlElementContentPtr model, bool inBrackets) const
+{
+  if(inBrackets)
+    os << '(';
 
   switch(model->type)
   {
+    case XML_ELEMENT_CONTENT_PCDATA:
+      os << "#PCDATA";
+      break;
     case XML_ELEMENT_CONTENT_ELEMENT:
-      if(!isChild)
-        os << '(' << model->name << ')';
-      else
-        os << model->name;
+      if(model->prefix)
+        os << model->prefix << ':';
+      os << model->name;
       break;
     case XML_ELEMENT_CONTENT_SEQ:
-      concatenator = ',';
-      break;
     case XML_ELEMENT_CONTENT_OR:
-      concatenator = '|';
-      break;
-    case XML_ELEMENT_CONTENT_PCDATA:
+    {
+      // a longer list is a chain through c2
+      xmlElementContentPtr first = model->c1, rest = model->c2;
+      convertXML_Content(os, first, first->c1 != 0);
+      os << ((model->type == XML_ELEMENT_CONTENT_SEQ) ? ',' : '|');
+      convertXML_Content(os, rest, rest->c1 != 0 && (rest->type != model->type || rest->ocur != XML_ELEMENT_CONTENT_ONCE));
       break;
+    }
   } // switch
 
-  // do children here
-  if(model->c1 != 0)
-  {
-    if(!isChild)
-      os << '(';
-    convertXML_Content(os, XML_ELEMENT_TYPE_ELEMENT, model->c1, true);
-    if(model->c2 != 0)
-    {
-      os << concatenator;
-      convertXML_Content(os, XML_ELEMENT_TYPE_ELEMENT, model->c2, true);
-    } // if ...
-    if(!isChild)
-      os << ')';
-  } // if ...
+  if(inBrackets)
+    os << ')';
 
   switch(model->ocur)
   {
-- 
2.43.0


From 08a2d1a51d36fa5e1edfb189dd8ad03224648cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:37 +0000
Subject: [PATCH 05/50] fix: Expat wrapper lost the separator after #PCDATA in
 mixed content models

---
 include/SAX/wrappers/saxexpat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index e71436a..7ab7d94 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -813,7 +813,7 @@ struct XML_cp {
 
     for(unsigned int i = 0; i < model->numchildren; ++i)
     {
-      if(i != 0)
+      if(i != 0 || model->type == XML_CTYPE_MIXED)
         os << concatenator;
       convertXML_Content(os, &(model->children[i]), true); 
     } // for ... 
-- 
2.43.0


From 633ac710f43dea07ee5f01772a610f43eb18df0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:31 +0000
Subject: [PATCH 06/50] fix: Expat wrapper leaked the content model of every
 element declaration

---
 include/SAX/wrappers/saxexpat.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index 7ab7d94..f40feb8 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -93,7 +93,7 @@ private:
   virtual void endElement(const char* qName) = 0;
   virtual void processingInstruction(const char* target, const char* data) = 0;
   virtual void elementDeclaration(const XML_Char* name,
-                                  const XML_Content* model) = 0;
+                                  XML_Content* model) = 0;
   virtual void attListDeclaration(const XML_Char* elname,
                                   const XML_Char* attname,
                                   const XML_Char* att_type,
@@ -275,7 +275,7 @@ class expat_wrapper :
     virtual void endElement(const char* qName);
     virtual void processingInstruction(const char* target, const char* data);
     virtual void elementDeclaration(const XML_Char* name,
-                                    const XML_Content* model);
+                                    XML_Content* model);
     virtual void attListDeclaration(const XML_Char* elname,
                                     const XML_Char* attname,
                                     const XML_Char* att_type,
@@ -315,6 +315,13 @@ class expat_wrapper :
     void endElementNoNS(const char* qName);
     void convertXML_Content(std::ostream& os, const XML_Content* model, bool isChild = false);
 
+    struct content_model_owner
+    {
+      XML_Parser parser;
+      XML_Content* model;
+      ~content_model_owner() { XML_FreeContentModel(parser, model); }
+    }; // struct content_model_owner
+
     // member variables
     entityResolverT* entityResolver_;
     dtdHandlerT* dtdHandler_;
@@ -717,8 +724,11 @@ void expat_wrapper<string_type, T0, T1>::processingInstruction(const char* targe
 
 template<class string_type, class T0, class T1>
 void expat_wrapper<string_type, T0, T1>::elementDeclaration(const XML_Char* name,
-                                         const XML_Content* model)
+                                         XML_Content* model)
 {
+  // Expat hands over ownership of the model
+  content_model_owner owner = { parser_, model };
+
   if(!declHandler_)
     return;
 
-- 
2.43.0


From 14f4cacf45ac07cacf998a0ff52388519a83b703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:31 +0000
Subject: [PATCH 07/50] fix: Expat wrapper could not be reused after a parse
 left by an exception, or kept prefixes and entities of a failed parse

---
 include/SAX/wrappers/saxexpat.hpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index f40feb8..228b912 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -315,6 +315,14 @@ class expat_wrapper :
     void endElementNoNS(const char* qName);
     void convertXML_Content(std::ostream& os, const XML_Content* model, bool isChild = false);
 
+    void endParse();
+
+    struct parse_ender
+    {
+      expat_wrapper& wrapper;
+      ~parse_ender() { wrapper.endParse(); }
+    }; // struct parse_ender
+
     struct content_model_owner
     {
       XML_Parser parser;
@@ -458,6 +466,9 @@ bool expat_wrapper<string_type, T0, T1>::getFeature(const string_type& name) con
 template<class string_type, class T0, class T1>
 void expat_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
 {
+  // whichever way this parse ends, the next one starts afresh
+  parse_ender ender = { *this };
+
   setCallbacks();
 
   publicId_ = source.getPublicId();
@@ -477,11 +488,19 @@ void expat_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
 
   if(contentHandler_)
     contentHandler_->endDocument();
+} // parse
 
+template<class string_type, class T0, class T1>
+void expat_wrapper<string_type, T0, T1>::endParse()
+{
   parsing_ = false;
 
+  nsSupport_.reset();
+  namespaceContextCreated_.clear();
+  declaredExternalEnts_.clear();
+
   XML_ParserReset(parser_, 0);
-} // parse
+} // endParse
 
 template<class string_type, class T0, class T1>
 bool expat_wrapper<string_type, T0, T1>::do_parse(inputSourceT& source, XML_Parser parser)  
-- 
2.43.0


From 21a7638e206aef784695eca43346c4f7189797db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:31 +0000
Subject: [PATCH 08/50] fix: Expat wrapper looped for ever on a failed stream,
 and leaked the entity parser when a handler threw

---
 include/SAX/wrappers/saxexpat.hpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index 228b912..0caaf61 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -323,6 +323,12 @@ class expat_wrapper :
       ~parse_ender() { wrapper.endParse(); }
     }; // struct parse_ender
 
+    struct external_parser_owner
+    {
+      XML_Parser parser;
+      ~external_parser_owner() { XML_ParserFree(parser); }
+    }; // struct external_parser_owner
+
     struct content_model_owner
     {
       XML_Parser parser;
@@ -513,7 +519,8 @@ bool expat_wrapper<string_type, T0, T1>::do_parse(inputSourceT& source, XML_Pars
   } // if(is.resolver() == 0)
 
   const int BUFF_SIZE = 10*1024;
-  while(!is.resolve()->eof())
+  bool last = false;
+  while(!last)
   {
     char* buffer = (char*)XML_GetBuffer(parser, BUFF_SIZE);
     if(buffer == NULL)
@@ -523,10 +530,17 @@ bool expat_wrapper<string_type, T0, T1>::do_parse(inputSourceT& source, XML_Pars
     } // if ...
 
     is.resolve()->read(buffer, BUFF_SIZE);
-    if(XML_ParseBuffer(parser, static_cast<int>(is.resolve()->gcount()), is.resolve()->eof()) == 0)
+    if(is.resolve()->bad())
+    {
+      reportError("Could not read XML document", true);
+      return false;
+    } // if ...
+
+    last = !*is.resolve(); // there's nothing more, whether the stream ended or failed
+    if(XML_ParseBuffer(parser, static_cast<int>(is.resolve()->gcount()), last) == 0)
     {
       // error
-      reportError(XML_ErrorString(XML_GetErrorCode(parser_)), true);
+      reportError(XML_ErrorString(XML_GetErrorCode(parser)), true);
       return false;
     } // if ...
   } // while
@@ -1051,11 +1065,11 @@ int expat_wrapper<string_type, T0, T1>::externalEntityRefHandler(XML_Parser pars
     source.setSystemId(sysId);
   } // if ...
 
-  XML_Parser externalParser = XML_ExternalEntityParserCreate(parser, context, 0);
-
-  bool ok = do_parse(source, externalParser);
-
-  XML_ParserFree(externalParser);
+  bool ok = false;
+  {
+    external_parser_owner external = { XML_ExternalEntityParserCreate(parser, context, 0) };
+    ok = do_parse(source, external.parser);
+  }
 
   if(!SA::empty(entityName) && lexicalHandler_)
     lexicalHandler_->endEntity(entityName);
-- 
2.43.0


From db61aa6cf2dc5ed4ba8fe050fda03099b547ccc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 09/50] fix: exceptions from handlers unwound through Expat's
 stack frames, leaking and leaving the parser unusable

---
 include/SAX/wrappers/saxexpat.hpp | 32 ++++++++++++++++++++-
 src/SAX/wrappers/saxexpat.cpp     | 47 ++++++++++++++++++++-----------
 2 files changed, 62 insertions(+), 17 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index 0caaf61..02c71f3 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -23,6 +23,7 @@
 #include <SAX/helpers/AttributeDefaults.hpp>
 #include <typeinfo>
 #include <map>
+#include <exception>
 #include <Arabica/getparam.hpp>
 
 namespace Arabica
@@ -82,12 +83,30 @@ int ewim_externalEntityRefHandler(XML_Parser parser,
 
 } // extern "C"
 
+class expat2base;
+template<typename callback> void ewim_guard(expat2base* p, callback call);
+
 class expat2base
 {
 protected:
+  expat2base() : runningParser_(0) { }
   virtual ~expat2base() { }
 
+  // Exceptions must not travel through Expat's own stack frames.  They are
+  // kept here, Expat is stopped, and they resume once it has returned.
+  XML_Parser runningParser_;
+  std::exception_ptr exception_;
+
+  void stopParsing()
+  {
+    exception_ = std::current_exception();
+    if(runningParser_)
+      XML_StopParser(runningParser_, XML_FALSE);
+  } // stopParsing
+
 private:
+  template<typename callback> friend void ewim_guard(expat2base* p, callback call);
+
   virtual void charHandler(const char* txt, int txtlen) = 0;
   virtual void startElement(const char* qName, const char** atts) = 0;
   virtual void endElement(const char* qName) = 0;
@@ -491,6 +510,8 @@ void expat_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
   XML_SetParamEntityParsing(parser_, externalResolving_ ? XML_PARAM_ENTITY_PARSING_ALWAYS : XML_PARAM_ENTITY_PARSING_NEVER);
 
   do_parse(source, parser_);
+  if(this->exception_)
+    std::rethrow_exception(this->exception_);
 
   if(contentHandler_)
     contentHandler_->endDocument();
@@ -501,6 +522,8 @@ void expat_wrapper<string_type, T0, T1>::endParse()
 {
   parsing_ = false;
 
+  this->runningParser_ = 0;
+  this->exception_ = nullptr;
   nsSupport_.reset();
   namespaceContextCreated_.clear();
   declaredExternalEnts_.clear();
@@ -537,7 +560,11 @@ bool expat_wrapper<string_type, T0, T1>::do_parse(inputSourceT& source, XML_Pars
     } // if ...
 
     last = !*is.resolve(); // there's nothing more, whether the stream ended or failed
-    if(XML_ParseBuffer(parser, static_cast<int>(is.resolve()->gcount()), last) == 0)
+    this->runningParser_ = parser;
+    bool ok = XML_ParseBuffer(parser, static_cast<int>(is.resolve()->gcount()), last) != 0;
+    if(this->exception_)
+      return false; // parse will rethrow
+    if(!ok)
     {
       // error
       reportError(XML_ErrorString(XML_GetErrorCode(parser)), true);
@@ -1069,7 +1096,10 @@ int expat_wrapper<string_type, T0, T1>::externalEntityRefHandler(XML_Parser pars
   {
     external_parser_owner external = { XML_ExternalEntityParserCreate(parser, context, 0) };
     ok = do_parse(source, external.parser);
+    this->runningParser_ = parser;
   }
+  if(this->exception_)
+    return 0;
 
   if(!SA::empty(entityName) && lexicalHandler_)
     lexicalHandler_->endEntity(entityName);
diff --git a/src/SAX/wrappers/saxexpat.cpp b/src/SAX/wrappers/saxexpat.cpp
index 6df8219..d8a7ff0 100644
--- a/src/SAX/wrappers/saxexpat.cpp
+++ b/src/SAX/wrappers/saxexpat.cpp
@@ -18,34 +18,47 @@ namespace expat_wrapper_impl_mumbojumbo
 
 ////////////////////////////////////////////////////////////////////////
 // expat callback function definition
+template<typename callback>
+void ewim_guard(expat2base* p, callback call)
+{
+  if(p->exception_) // stopped, but Expat may have a few more events to deliver
+    return;
+  try {
+    call();
+  }
+  catch(...) {
+    p->stopParsing();
+  }
+} // ewim_guard
+
 void ewim_charHandler(void* data, const char* txt, int txtlen)
 {
   expat2base* p = reinterpret_cast<expat2base*>(data);
-  p->charHandler(txt, txtlen);
+  ewim_guard(p, [&]() { p->charHandler(txt, txtlen); });
 } // charHandler
 
 void ewim_startElement(void* data, const char* qName, const char** atts)
 {
   expat2base* p = reinterpret_cast<expat2base*>(data);
-  p->startElement(qName, atts);
+  ewim_guard(p, [&]() { p->startElement(qName, atts); });
 } // startElement
 
 void ewim_endElement(void* data, const char* qName)
 {
   expat2base* p = reinterpret_cast<expat2base*>(data);
-  p->endElement(qName);
+  ewim_guard(p, [&]() { p->endElement(qName); });
 } // endElement
 
 void ewim_processingInstruction(void* userData, const char* target, const char* data)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->processingInstruction(target, data);
+  ewim_guard(p, [&]() { p->processingInstruction(target, data); });
 } // processingInstruction
 
 void ewim_elementDeclaration(void* userData, const XML_Char* name, XML_Content* model)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->elementDeclaration(name, model);
+  ewim_guard(p, [&]() { p->elementDeclaration(name, model); });
 } // elementDeclaration
 
 void ewim_attListDeclaration(void* userData,
@@ -56,7 +69,7 @@ void ewim_attListDeclaration(void* userData,
 					              int isrequired)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->attListDeclaration(elname, attname, att_type, dflt, isrequired);
+  ewim_guard(p, [&]() { p->attListDeclaration(elname, attname, att_type, dflt, isrequired); });
 } // attListDeclaration
 
 void ewim_entityDeclaration(void* userData, 
@@ -70,8 +83,8 @@ void ewim_entityDeclaration(void* userData,
                       const XML_Char* notationName)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->entityDeclaration(entityName, is_parameter_entity, value, value_length,
-                       base, systemId, publicId, notationName);
+  ewim_guard(p, [&]() { p->entityDeclaration(entityName, is_parameter_entity, value, value_length,
+                       base, systemId, publicId, notationName); });
 
 } // entityDeclaration
 
@@ -82,7 +95,7 @@ void ewim_notationDeclaration(void* userData,
 					                const XML_Char* publicId)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->notationDeclaration(notationName, base, systemId, publicId);
+  ewim_guard(p, [&]() { p->notationDeclaration(notationName, base, systemId, publicId); });
 } // notationDeclHandler
 
 void ewim_startDoctypeDecl(void* userData,
@@ -92,37 +105,37 @@ void ewim_startDoctypeDecl(void* userData,
 					                 int has_internal_subset)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->startDoctypeDecl(doctypeName, sysid, pubid, has_internal_subset);
+  ewim_guard(p, [&]() { p->startDoctypeDecl(doctypeName, sysid, pubid, has_internal_subset); });
 } // startDoctypeDecl
 
 void ewim_endDoctypeDecl(void* userData)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->endDoctypeDecl();
+  ewim_guard(p, [&]() { p->endDoctypeDecl(); });
 } // endDoctypeDecl
 
 void ewim_startCdataSection(void* userData)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->startCdataSection();
+  ewim_guard(p, [&]() { p->startCdataSection(); });
 } // startCdatSection
 
 void ewim_endCdataSection(void* userData)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->endCdataSection();
+  ewim_guard(p, [&]() { p->endCdataSection(); });
 } // endCdataSection
 
 void ewim_commentHandler(void* userData, const XML_Char* data)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->commentHandler(data);
+  ewim_guard(p, [&]() { p->commentHandler(data); });
 } // commentHandler
 
 void ewim_skippedEntityHandler(void* userData, const XML_Char* entityName, int /* is_parameter_entity */)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->skippedEntity(entityName);
+  ewim_guard(p, [&]() { p->skippedEntity(entityName); });
 } // skippedEntityHandler
 
 
@@ -133,7 +146,9 @@ int ewim_externalEntityRefHandler(XML_Parser parser,
                                   const XML_Char* publicId)
 {
   expat2base* p = reinterpret_cast<expat2base*>(XML_GetUserData(parser));
-  return p->externalEntityRefHandler(parser, context, base, systemId, publicId);
+  int ok = 0;
+  ewim_guard(p, [&]() { ok = p->externalEntityRefHandler(parser, context, base, systemId, publicId); });
+  return ok;
 } // externalEntityRefHandler
 
 } // namespace expat_wrapper_impl_mumbojumbo
-- 
2.43.0


From e988173625fcb3fe839a38622fff8a847abbd5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:52 +0000
Subject: [PATCH 10/50] fix: libxml2 and Xerces wrappers: failed streams,
 exceptions and state left behind by an abandoned parse

The libxml2 wrapper looped for ever on a failed stream, said nothing about a
source it could not open, let handler exceptions unwind through libxml2 (which
then leaked), left open prefixes, a CDATA section and the first document's
encoding behind for the next parse, and leaked every enumerated attribute type.
The Xerces wrapper let stream exceptions unwind through Xerces (which leaked),
and parseFirst used a dangling system id.
---
 include/SAX/wrappers/saxlibxml2.hpp | 57 ++++++++++++++++++++----
 include/SAX/wrappers/saxxerces.hpp  | 68 ++++++++++++++++++++++-------
 src/SAX/wrappers/saxlibxml2.cpp     | 53 ++++++++++++++--------
 3 files changed, 134 insertions(+), 44 deletions(-)

diff --git a/include/SAX/wrappers/saxlibxml2.hpp b/include/SAX/wrappers/saxlibxml2.hpp
index 42dddaf..3dc65f5 100644
--- a/include/SAX/wrappers/saxlibxml2.hpp
+++ b/include/SAX/wrappers/saxlibxml2.hpp
@@ -15,6 +15,7 @@
 #include <string>
 #include <cstdarg>
 #include <typeinfo>
+#include <exception>
 
 #include <SAX/helpers/FeatureNames.hpp>
 #include <SAX/helpers/NamespaceSupport.hpp>
@@ -63,12 +64,23 @@ xmlEntityPtr lwit_getEntity(void* user_data, const xmlChar* name);
 xmlParserInputPtr lwit_resolveEntity(void* user_data, const xmlChar* publicId, const xmlChar* systemId);
 xmlSAXHandler* lwit_SaxHandler();
 
+} // extern "C"
+
+class libxml2_base;
+template<typename callback> void lwit_guard(libxml2_base* p, callback call);
+
 class libxml2_base
 {
   protected:
     virtual ~libxml2_base() { }
 
+    // Exceptions must not travel through libxml2's own stack frames.  They are
+    // kept here, libxml2 is stopped, and they resume once it has returned.
+    std::exception_ptr exception_;
+
   private:
+    template<typename callback> friend void lwit_guard(libxml2_base* p, callback call);
+
     virtual void SAXstartDocument() = 0;
     virtual void SAXendDocument() = 0;
     virtual void SAXlocator(xmlSAXLocatorPtr locator) = 0;
@@ -115,8 +127,6 @@ class libxml2_base
     friend xmlParserInputPtr lwit_resolveEntity(void* user_data, const xmlChar* publicId, const xmlChar* systemId);
 }; // class libxml2_base
 
-} // extern "C"
-
 } // namespace libxml2_wrapper_impl_tiddle
 
 template<class string_type,
@@ -211,6 +221,13 @@ class libxml2_wrapper :
     qualifiedNameT processName(const string_type& qName, bool isAttribute);
     void reportError(const std::string& message, bool fatal = false);
     void checkNotParsing(const string_type& type, const string_type& name) const;
+    void endParse();
+
+    struct parse_ender
+    {
+      libxml2_wrapper& wrapper_;
+      ~parse_ender() { wrapper_.endParse(); }
+    }; // struct parse_ender
 
   private:
     // member variables
@@ -414,21 +431,43 @@ void libxml2_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
 
   InputSourceResolver is(source, string_adaptor());
   if(is.resolve() == 0)
+  {
+    reportError("Could not resolve XML document", true);
     return;
+  } // if ...
 
   parsing_ = true;
+  parse_ender ender = { *this };
 
-	while(!is.resolve()->eof())
- 	{
-		char buffer[4096];
-		is.resolve()->read(buffer, sizeof(buffer));
-		xmlParseChunk(context_, buffer, (int)is.resolve()->gcount(), is.resolve()->eof());
-	} // while(!in.eof())
+  bool last = false;
+  while(!last)
+  {
+    char buffer[4096];
+    is.resolve()->read(buffer, sizeof(buffer));
+    if(is.resolve()->bad())
+    {
+      reportError("Could not read XML document", true);
+      return;
+    } // if ...
+
+    last = !*is.resolve(); // there's nothing more, whether the stream ended or failed
+    xmlParseChunk(context_, buffer, (int)is.resolve()->gcount(), last);
+    if(this->exception_)
+      std::rethrow_exception(this->exception_);
+  } // while ...
+} // parse
 
+template<class string_type, class T0, class T1>
+void libxml2_wrapper<string_type, T0, T1>::endParse()
+{
   xmlCtxtResetPush(context_, 0, 0, 0, 0);
+  context_->charset = XML_CHAR_ENCODING_NONE; // as at first, so the next encoding is detected
 
+  this->exception_ = nullptr;
+  nsSupport_.reset();
+  isInCData_ = false;
   parsing_ = false;
-} // parse
+} // endParse
 
 template<class string_type, class T0, class T1>
 void libxml2_wrapper<string_type, T0, T1>::SAXstartDocument()
diff --git a/include/SAX/wrappers/saxxerces.hpp b/include/SAX/wrappers/saxxerces.hpp
index 82cf335..9e2f357 100644
--- a/include/SAX/wrappers/saxxerces.hpp
+++ b/include/SAX/wrappers/saxxerces.hpp
@@ -8,6 +8,7 @@
 #include <memory>
 #include <string>
 #include <vector>
+#include <exception>
 
 #include <SAX/Attributes.hpp>
 #include <SAX/InputSource.hpp>
@@ -319,7 +320,10 @@ class xerces_wrapper : public ProgressiveParser<string_type, typename Arabica::g
     class EntityResolverAdaptor : public XERCES_CPP_NAMESPACE::EntityResolver
     {
       public:
-        EntityResolverAdaptor() : entityResolverHandler_(0) { }
+        EntityResolverAdaptor(std::exception_ptr& streamException)
+        :   entityResolverHandler_(0),
+            streamException_(streamException)
+        { }
         ~EntityResolverAdaptor() { }
 
         void setEntityResolver(EntityResolverT& handler)
@@ -352,12 +356,13 @@ class xerces_wrapper : public ProgressiveParser<string_type, typename Arabica::g
                   }
                   else
                   {
-                      return new InputSourceAdaptor(source);
+                      return new InputSourceAdaptor(source, streamException_);
                   }
               }
 
       private:
         EntityResolverT* entityResolverHandler_;
+        std::exception_ptr& streamException_;
     }; // class EntityResolverAdaptor
 
     class DTDHandlerAdaptor : public XERCES_CPP_NAMESPACE::DTDHandler
@@ -745,9 +750,10 @@ class xerces_wrapper : public ProgressiveParser<string_type, typename Arabica::g
     class IStreamAdaptor : public XERCES_CPP_NAMESPACE::BinInputStream
     {
       public:
-        IStreamAdaptor(IStreamHandle istream)
+        IStreamAdaptor(IStreamHandle istream, std::exception_ptr& streamException)
         :   istream_(istream),
-            curPos_(0)
+            curPos_(0),
+            streamException_(streamException)
         { }
 
         virtual ~IStreamAdaptor() { }
@@ -760,7 +766,16 @@ class xerces_wrapper : public ProgressiveParser<string_type, typename Arabica::g
         virtual XMLSize_t readBytes(XMLByte* const toFill,
 				    const XMLSize_t maxToRead)
         {
-          istream_.get()->read(reinterpret_cast<char*>(toFill), maxToRead);
+          // Xerces leaks if a stream throws, so keep the exception until it's done
+          try
+          {
+            istream_.get()->read(reinterpret_cast<char*>(toFill), maxToRead);
+          } // try
+          catch(...)
+          {
+            if(!streamException_)
+              streamException_ = std::current_exception();
+          } // catch
           curPos_ += istream_.get()->gcount();
           return static_cast<XMLSize_t>(istream_.get()->gcount());
         } // readBytes
@@ -770,13 +785,15 @@ class xerces_wrapper : public ProgressiveParser<string_type, typename Arabica::g
       private:
         IStreamHandle istream_;
         XMLFilePos curPos_;
+        std::exception_ptr& streamException_;
     }; // IStreamAdaptor
 
     class InputSourceAdaptor : public XERCES_CPP_NAMESPACE::InputSource
     {
       public:
-        InputSourceAdaptor(const InputSourceT& source)
-        :   inputSource_(source)
+        InputSourceAdaptor(const InputSourceT& source, std::exception_ptr& streamException)
+        :   inputSource_(source),
+            streamException_(streamException)
         {
             xerces_string_janitor<XMLCh> wSystemId(XSA::asXMLChString(source.getSystemId()));
             xerces_string_janitor<XMLCh> wPublicId(XSA::asXMLChString(source.getPublicId()));
@@ -787,13 +804,14 @@ class xerces_wrapper : public ProgressiveParser<string_type, typename Arabica::g
 
         virtual XERCES_CPP_NAMESPACE::BinInputStream* makeStream() const
         {
-          return new IStreamAdaptor(inputSource_.getByteStreamHandle());
+          return new IStreamAdaptor(inputSource_.getByteStreamHandle(), streamException_);
         } // makeStream
 
       private:
         // This is a local copy, so we do not rely on someone else keeping
         // their InputSourceT around for us.
         InputSourceT inputSource_;
+        std::exception_ptr& streamException_;
     }; // class InputSourceAdaptor
 
     class XercesXMLPScanToken : public SAX::XMLPScanTokenParserImpl
@@ -802,8 +820,23 @@ class xerces_wrapper : public ProgressiveParser<string_type, typename Arabica::g
         XERCES_CPP_NAMESPACE::XMLPScanToken token_;
     };
 
+    // Runs op, then lets out an exception thrown by an input stream.
+    template<class operation>
+    void withStreamExceptions(operation op)
+    {
+      streamException_ = nullptr;
+      op();
+      if(streamException_)
+      {
+        std::exception_ptr ex = streamException_;
+        streamException_ = nullptr;
+        std::rethrow_exception(ex);
+      } // if ...
+    } // withStreamExceptions
+
     /////////////////////////////////////////////
     // Member variables
+    std::exception_ptr streamException_;
     std::unique_ptr<XercesImpl::xerces_initializer> initializer_;
     XERCES_CPP_NAMESPACE::SAX2XMLReader* xerces_;
     ContentHandlerAdaptor contentHandlerAdaptor_;
@@ -820,7 +853,8 @@ std::unique_ptr<XERCES_CPP_NAMESPACE::XMLTranscoder> xerces_wrapper<string_type,
 #endif
 
 template<class string_type, class T0, class T1>
-xerces_wrapper<string_type, T0, T1>::xerces_wrapper()
+xerces_wrapper<string_type, T0, T1>::xerces_wrapper() :
+  entityResolverAdaptor_(streamException_)
 {
   try
   {
@@ -899,8 +933,8 @@ void xerces_wrapper<string_type, T0, T1>::parse(InputSourceT& source)
   else
   {
     // we have to wrap everything up in a Xerces friendly way
-    InputSourceAdaptor isAdaptor(source);
-    xerces_->parse(isAdaptor);
+    InputSourceAdaptor isAdaptor(source, streamException_);
+    withStreamExceptions([&]() { xerces_->parse(isAdaptor); });
   } // if ...
 } // parse
 
@@ -916,8 +950,8 @@ bool xerces_wrapper<string_type,
   {
     // We can just pass the systemID to parseFirst and let Xerces open the
     // stream.
-    const char* systemID = XSA::asStdString(input.getSystemId()).c_str();
-    result = xerces_->parseFirst(systemID, newToken->token_);
+    std::string systemID = XSA::asStdString(input.getSystemId());
+    result = xerces_->parseFirst(systemID.c_str(), newToken->token_);
   }
   else
   {
@@ -926,8 +960,8 @@ bool xerces_wrapper<string_type,
     // isAdaptor can be a local variable because Xerces has to open any streams
     // within the parseFirst() call, so it should not need the
     // InputSourceAdaptor to hang around.
-    InputSourceAdaptor isAdaptor(input);
-    result = xerces_->parseFirst(isAdaptor, newToken->token_);
+    InputSourceAdaptor isAdaptor(input, streamException_);
+    withStreamExceptions([&]() { result = xerces_->parseFirst(isAdaptor, newToken->token_); });
   }
   if (result) {
     // We need to explicitly convert to unique_ptr<base class>.
@@ -952,7 +986,9 @@ bool xerces_wrapper<string_type, T0, T1>::parseNext(XMLPScanToken& token)
   else
   {
     // Otherwise, just pass the token to Xerces.
-    return xerces_->parseNext(xercesToken->token_);
+    bool result = false;
+    withStreamExceptions([&]() { result = xerces_->parseNext(xercesToken->token_); });
+    return result;
   }
 } // parseNext
 
diff --git a/src/SAX/wrappers/saxlibxml2.cpp b/src/SAX/wrappers/saxlibxml2.cpp
index b1650a0..beb922f 100644
--- a/src/SAX/wrappers/saxlibxml2.cpp
+++ b/src/SAX/wrappers/saxlibxml2.cpp
@@ -24,18 +24,32 @@ std::string formatErrorMsg(const char* fmt, va_list arg)
 	return std::string(buff);
 } // formatErrorMsg
 
+template<typename callback>
+void lwit_guard(libxml2_base* p, callback call)
+{
+  if(p->exception_) // stopped, but libxml2 may have a few more events to deliver
+    return;
+  try {
+    call();
+  }
+  catch(...) {
+    p->exception_ = std::current_exception();
+    xmlStopParser(p->parserContext());
+  }
+} // lwit_guard
+
 void lwit_startDocument(void* user_data)
 {
   libxml2_base* p = reinterpret_cast<libxml2_base*>(user_data);
   p->parserContext()->myDoc = xmlNewDoc(p->parserContext()->version);
   p->parserContext()->myDoc->intSubset = xmlNewDtd(p->parserContext()->myDoc, BAD_CAST "fake", NULL, NULL);
-  p->SAXstartDocument();
+  lwit_guard(p, [&]() { p->SAXstartDocument(); });
 } // lwit_startDocument
 
 void lwit_endDocument(void* user_data)
 {
   libxml2_base* p = reinterpret_cast<libxml2_base*>(user_data);
-  p->SAXendDocument();
+  lwit_guard(p, [&]() { p->SAXendDocument(); });
   xmlFreeDoc(p->parserContext()->myDoc);
   p->parserContext()->myDoc = 0;
 } // lwit_endDocument
@@ -43,26 +57,26 @@ void lwit_endDocument(void* user_data)
 void lwit_startElement(void *user_data, const xmlChar* name, const xmlChar** attrs)
 {
   libxml2_base* p = reinterpret_cast<libxml2_base*>(user_data);
-  p->SAXstartElement(name, attrs);
+  lwit_guard(p, [&]() { p->SAXstartElement(name, attrs); });
 } // lwit_startElement
 
 void lwit_endElement(void *user_data, const xmlChar* name)
 {
   libxml2_base* p = reinterpret_cast<libxml2_base*>(user_data);
-  p->SAXendElement(name);
+  lwit_guard(p, [&]() { p->SAXendElement(name); });
 } // lwit_endElement
 
 void lwit_characters(void* user_data, const xmlChar* ch, int len)
 {
   libxml2_base* p = reinterpret_cast<libxml2_base*>(user_data);
-  p->SAXcharacters(ch, len);
+  lwit_guard(p, [&]() { p->SAXcharacters(ch, len); });
 } // lwit_characters
 
 void lwit_cdata(void* user_data, const xmlChar* ch, int len)
 {
   libxml2_base* p = reinterpret_cast<libxml2_base*>(user_data);
-  p->SAXstartCdataSection();
-  p->SAXcdata(ch, len);
+  lwit_guard(p, [&]() { p->SAXstartCdataSection(); });
+  lwit_guard(p, [&]() { p->SAXcdata(ch, len); });
 // everyone else will call endCData if we are in cdata
 //  p->SAXendCdataSection();
 } // lwit_cdata
@@ -70,19 +84,19 @@ void lwit_cdata(void* user_data, const xmlChar* ch, int len)
 void lwit_ignorableWhitespace(void *user_data, const xmlChar* ch, int len)
 {
   libxml2_base* p = reinterpret_cast<libxml2_base*>(user_data);
-  p->SAXignorableWhitespace(ch, len);
+  lwit_guard(p, [&]() { p->SAXignorableWhitespace(ch, len); });
 } // lwit_ignorableWhitespace
 
 void lwit_processingInstruction(void *user_data, const xmlChar* target, const xmlChar* data)
 {
   libxml2_base* p = reinterpret_cast<libxml2_base*>(user_data);
-  p->SAXprocessingInstruction(target, data);
+  lwit_guard(p, [&]() { p->SAXprocessingInstruction(target, data); });
 } // lwit_processingInstruction
 
 void lwit_comment(void *user_data, const xmlChar* comment)
 {
   libxml2_base* p = reinterpret_cast<libxml2_base*>(user_data);
-  p->SAXcomment(comment);
+  lwit_guard(p, [&]() { p->SAXcomment(comment); });
 } // lwit_comment
 
 void lwit_warning(void *user_data, const char* fmt, ...)
@@ -93,7 +107,7 @@ void lwit_warning(void *user_data, const char* fmt, ...)
   va_end(arg);
 
   libxml2_base* p = reinterpret_cast<libxml2_base*>(user_data);
-  p->SAXwarning(msg);
+  lwit_guard(p, [&]() { p->SAXwarning(msg); });
 } // lwit_warning
 
 void lwit_error(void* user_data, const char* fmt, ...)
@@ -104,7 +118,7 @@ void lwit_error(void* user_data, const char* fmt, ...)
   va_end(arg);
 
   libxml2_base* p = reinterpret_cast<libxml2_base*>(user_data);
-  p->SAXerror(msg);
+  lwit_guard(p, [&]() { p->SAXerror(msg); });
 } // lwit_error
 
 void lwit_fatalError(void* user_data, const char* fmt, ...)
@@ -115,19 +129,19 @@ void lwit_fatalError(void* user_data, const char* fmt, ...)
   va_end(arg);
 
   libxml2_base* p = reinterpret_cast<libxml2_base*>(user_data);
-  p->SAXfatalError(msg);
+  lwit_guard(p, [&]() { p->SAXfatalError(msg); });
 } // lwit_fatalError
 
 void lwit_locator(void* user_data, xmlSAXLocatorPtr locator)
 {
   libxml2_base* p = reinterpret_cast<libxml2_base*>(user_data);
-	p->SAXlocator(locator);
+	lwit_guard(p, [&]() { p->SAXlocator(locator); });
 } // lwit_locator
 
 void lwit_notationDecl(void* user_data, const xmlChar *name, const xmlChar *publicId, const xmlChar *systemId)
 {
   libxml2_base* p = reinterpret_cast<libxml2_base*>(user_data);
-  p->SAXnotationDecl(name, publicId, systemId);
+  lwit_guard(p, [&]() { p->SAXnotationDecl(name, publicId, systemId); });
 } // lwit_notationDecl
 
 void lwit_unparsedEntityDecl(void* user_data,
@@ -135,25 +149,26 @@ void lwit_unparsedEntityDecl(void* user_data,
 			                     const xmlChar *systemId, const xmlChar *notationName)
 {
   libxml2_base* p = reinterpret_cast<libxml2_base*>(user_data);
-  p->SAXunparsedEntityDecl(name, publicId, systemId, notationName);
+  lwit_guard(p, [&]() { p->SAXunparsedEntityDecl(name, publicId, systemId, notationName); });
 } // lwit_unparsedEntityDecl
 
 void lwit_elementDecl(void* user_data, const xmlChar *name, int type, xmlElementContentPtr content)
 {
   libxml2_base* p = reinterpret_cast<libxml2_base*>(user_data);
-  p->SAXelementDecl(name, type, content);
+  lwit_guard(p, [&]() { p->SAXelementDecl(name, type, content); });
 } // lwit_elementDecl
 
 void lwit_attributeDecl(void *user_data, const xmlChar *elem, const xmlChar *fullname, int type, int def, const xmlChar *defaultValue, xmlEnumerationPtr tree)
 {
   libxml2_base* p = reinterpret_cast<libxml2_base*>(user_data);
-  p->SAXattributeDecl(elem, fullname, type, def, defaultValue, tree);
+  lwit_guard(p, [&]() { p->SAXattributeDecl(elem, fullname, type, def, defaultValue, tree); });
+  xmlFreeEnumeration(tree); // which is given to us to keep
 } // lwit_attributeDecl
 
 void lwit_entityDecl(void* user_data, const xmlChar *name, int type, const xmlChar *publicId, const xmlChar *systemId,	xmlChar *content)
 {
   libxml2_base* p = reinterpret_cast<libxml2_base*>(user_data);
-  p->SAXentityDecl(name, type, publicId, systemId, content);
+  lwit_guard(p, [&]() { p->SAXentityDecl(name, type, publicId, systemId, content); });
   xmlSAX2EntityDecl(p->parserContext(), name, type, publicId, systemId, content);
 } // lwit_entityDecl
 
-- 
2.43.0


From 0b470c30a24c7ae1960fad2296e373b8be421536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:57 +0000
Subject: [PATCH 11/50] fix: a stream that had failed, or failed at the top
 level of an external entity, passed for an empty or complete entity

---
 include/SAX/wrappers/saxexpat.hpp  | 13 ++++++++++---
 include/SAX/wrappers/saxxerces.hpp | 18 +++++++++++++++---
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index 02c71f3..6ff9c13 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -345,7 +345,9 @@ class expat_wrapper :
     struct external_parser_owner
     {
       XML_Parser parser;
-      ~external_parser_owner() { XML_ParserFree(parser); }
+      XML_Parser outer;
+      XML_Parser& running;
+      ~external_parser_owner() { running = outer; XML_ParserFree(parser); }
     }; // struct external_parser_owner
 
     struct content_model_owner
@@ -541,6 +543,12 @@ bool expat_wrapper<string_type, T0, T1>::do_parse(inputSourceT& source, XML_Pars
     return false;
   } // if(is.resolver() == 0)
 
+  if(is.resolve()->fail())
+  {
+    reportError("Could not read XML document", true);
+    return false;
+  } // if ...
+
   const int BUFF_SIZE = 10*1024;
   bool last = false;
   while(!last)
@@ -1094,9 +1102,8 @@ int expat_wrapper<string_type, T0, T1>::externalEntityRefHandler(XML_Parser pars
 
   bool ok = false;
   {
-    external_parser_owner external = { XML_ExternalEntityParserCreate(parser, context, 0) };
+    external_parser_owner external = { XML_ExternalEntityParserCreate(parser, context, 0), parser, this->runningParser_ };
     ok = do_parse(source, external.parser);
-    this->runningParser_ = parser;
   }
   if(this->exception_)
     return 0;
diff --git a/include/SAX/wrappers/saxxerces.hpp b/include/SAX/wrappers/saxxerces.hpp
index 9e2f357..c52856a 100644
--- a/include/SAX/wrappers/saxxerces.hpp
+++ b/include/SAX/wrappers/saxxerces.hpp
@@ -36,6 +36,8 @@
 #include <xercesc/sax/ErrorHandler.hpp>
 #include <xercesc/sax/SAXParseException.hpp>
 #include <xercesc/util/BinInputStream.hpp>
+#include <xercesc/util/XMLNetAccessor.hpp>
+#include <xercesc/util/XMLExceptMsgs.hpp>
 #include <xercesc/sax/InputSource.hpp>
 
 #include <xercesc/util/TransService.hpp>
@@ -753,6 +755,7 @@ class xerces_wrapper : public ProgressiveParser<string_type, typename Arabica::g
         IStreamAdaptor(IStreamHandle istream, std::exception_ptr& streamException)
         :   istream_(istream),
             curPos_(0),
+            failed_(false),
             streamException_(streamException)
         { }
 
@@ -766,15 +769,20 @@ class xerces_wrapper : public ProgressiveParser<string_type, typename Arabica::g
         virtual XMLSize_t readBytes(XMLByte* const toFill,
 				    const XMLSize_t maxToRead)
         {
-          // Xerces leaks if a stream throws, so keep the exception until it's done
+          // Xerces stops cleanly only on exceptions of its own, and not while
+          // it makes its first read.  So keep what the stream throws until
+          // Xerces is done, and fail when it comes back for more.
+          if(failed_)
+            throw XERCES_CPP_NAMESPACE::NetAccessorException(__FILE__, __LINE__, XERCES_CPP_NAMESPACE::XMLExcepts::File_CouldNotReadFromFile);
           try
           {
             istream_.get()->read(reinterpret_cast<char*>(toFill), maxToRead);
+            failed_ = istream_.get()->bad();
           } // try
           catch(...)
           {
-            if(!streamException_)
-              streamException_ = std::current_exception();
+            streamException_ = std::current_exception();
+            failed_ = true;
           } // catch
           curPos_ += istream_.get()->gcount();
           return static_cast<XMLSize_t>(istream_.get()->gcount());
@@ -785,6 +793,7 @@ class xerces_wrapper : public ProgressiveParser<string_type, typename Arabica::g
       private:
         IStreamHandle istream_;
         XMLFilePos curPos_;
+        bool failed_;
         std::exception_ptr& streamException_;
     }; // IStreamAdaptor
 
@@ -804,6 +813,9 @@ class xerces_wrapper : public ProgressiveParser<string_type, typename Arabica::g
 
         virtual XERCES_CPP_NAMESPACE::BinInputStream* makeStream() const
         {
+          // with nothing to read from, Xerces reports that it couldn't open the source
+          if(inputSource_.getByteStream() == 0 || inputSource_.getByteStream()->fail())
+            return 0;
           return new IStreamAdaptor(inputSource_.getByteStreamHandle(), streamException_);
         } // makeStream
 
-- 
2.43.0


From 2afda3d8761fa938771bd38141ec5b8f3bac835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:50 +0000
Subject: [PATCH 12/50] fix: SAX filters kept text, prefixes and bases of an
 abandoned document, lost trailing text, and depended on how text was split

---
 include/SAX/filter/NamespaceTracker.hpp       | 10 ++++++
 include/SAX/filter/TextCoalescer.hpp          | 33 ++++++++++++++++++-
 .../SAX/filter/WhitespaceStripperFilter.hpp   | 19 ++++++-----
 include/SAX/filter/XMLBaseTracker.hpp         | 26 +++++++++++++--
 include/SAX/helpers/XMLBaseSupport.hpp        | 10 ++++--
 5 files changed, 85 insertions(+), 13 deletions(-)

diff --git a/include/SAX/filter/NamespaceTracker.hpp b/include/SAX/filter/NamespaceTracker.hpp
index 19392ce..323cca0 100644
--- a/include/SAX/filter/NamespaceTracker.hpp
+++ b/include/SAX/filter/NamespaceTracker.hpp
@@ -22,6 +22,7 @@ class NamespaceTracker : public XMLFilterImpl<string_type, string_adaptor>
 public:
   typedef XMLReaderInterface<string_type, string_adaptor> XMLReaderT;
   typedef Attributes<string_type, string_adaptor> AttributesT;
+  typedef InputSource<string_type, string_adaptor> InputSourceT;
 
   NamespaceTracker() : 
     XMLFilterT()
@@ -65,6 +66,15 @@ public:
     return ns;
   } // inScopeNamespaces
 
+  virtual void parse(InputSourceT& input)
+  {
+    // a previous document may have been abandoned part way
+    namespaces_.reset();
+    buffer_.clear();
+
+    XMLFilterT::parse(input);
+  } // parse
+
   virtual void startElement(const string_type& namespaceURI, const string_type& localName,
                             const string_type& qName, const AttributesT& atts)
   {
diff --git a/include/SAX/filter/TextCoalescer.hpp b/include/SAX/filter/TextCoalescer.hpp
index e461c87..070c59d 100644
--- a/include/SAX/filter/TextCoalescer.hpp
+++ b/include/SAX/filter/TextCoalescer.hpp
@@ -23,6 +23,7 @@ class TextCoalescer : public XMLFilterImpl<string_type, string_adaptor>
 public:
   typedef XMLReaderInterface<string_type, string_adaptor> XMLReaderT;
   typedef Attributes<string_type, string_adaptor> AttributesT;
+  typedef InputSource<string_type, string_adaptor> InputSourceT;
 
   TextCoalescer() : 
     XMLFilterT()
@@ -34,6 +35,24 @@ public:
   {
   } // TextCoalescer
 
+  virtual void parse(InputSourceT& input)
+  {
+    buffer_ = string_adaptor::empty_string(); // a previous document may have been abandoned part way
+    XMLFilterT::parse(input);
+  } // parse
+
+  virtual void endDocument()
+  {
+    flush();
+    XMLFilterT::endDocument();
+  } // endDocument
+
+  virtual void startPrefixMapping(const string_type& prefix, const string_type& uri)
+  {
+    flush();
+    XMLFilterT::startPrefixMapping(prefix, uri);
+  } // startPrefixMapping
+
   virtual void startElement(const string_type& namespaceURI, const string_type& localName,
                             const string_type& qName, const AttributesT& atts) 
   { 
@@ -64,6 +83,12 @@ public:
     XMLFilterT::processingInstruction(target, data);
   } // processingInstruction
 
+  virtual void skippedEntity(const string_type& name)
+  {
+    flush();
+    XMLFilterT::skippedEntity(name);
+  } // skippedEntity
+
   virtual void startCDATA() 
   { 
     flush();
@@ -95,13 +120,19 @@ public:
   } // endEntity
 
 
+protected:
+  virtual void reportText(const string_type& text)
+  {
+    XMLFilterT::characters(text);
+  } // reportText
+
 private:
   void flush()
   {
     if(string_adaptor::empty(buffer_))
       return;
 
-    XMLFilterT::characters(buffer_);
+    reportText(buffer_);
     buffer_ = string_adaptor::empty_string();
   } // flush
 
diff --git a/include/SAX/filter/WhitespaceStripperFilter.hpp b/include/SAX/filter/WhitespaceStripperFilter.hpp
index 4f49431..46e4cc7 100644
--- a/include/SAX/filter/WhitespaceStripperFilter.hpp
+++ b/include/SAX/filter/WhitespaceStripperFilter.hpp
@@ -2,6 +2,7 @@
 #define WHITESPACE_STRIPPER_FILTER_HPP
 
 #include <SAX/helpers/XMLFilterImpl.hpp>
+#include <SAX/filter/TextCoalescer.hpp>
 
 #include <text/normalize_whitespace.hpp>
 
@@ -11,30 +12,32 @@ namespace SAX
 {
 
 template<class string_type, class string_adaptor = Arabica::default_string_adaptor<string_type> >
-class WhitespaceStripper : public SAX::XMLFilterImpl<string_type, string_adaptor>
+class WhitespaceStripper : public TextCoalescer<string_type, string_adaptor>
 {
   public:
     typedef SAX::XMLReaderInterface<string_type, string_adaptor> XMLReaderT;
     typedef SAX::XMLFilterImpl<string_type, string_adaptor> XMLFilterT;
 
     WhitespaceStripper() : 
-      XMLFilterT() 
+      TextCoalescer<string_type, string_adaptor>() 
     { 
     } // WhitespaceStripper
 
     WhitespaceStripper(XMLReaderT& parent) :
-      XMLFilterT(parent)
+      TextCoalescer<string_type, string_adaptor>(parent)
     {
     } // WhitespaceStripper    
 
-    virtual void characters(const string_type& ch)
-    { 
-      XMLFilterT::characters(Arabica::text::normalize_whitespace<string_type, string_adaptor>(ch));
-    } // characters
-
     virtual void ignorableWhitespace(const string_type& /* ch */)
     {
     } // ignorableWhitespace
+
+  protected:
+    // the parser may report text in several pieces, splitting it anywhere, so it has to be joined up first
+    virtual void reportText(const string_type& text)
+    { 
+      XMLFilterT::characters(Arabica::text::normalize_whitespace<string_type, string_adaptor>(text));
+    } // reportText
 }; // class WhitespaceStripper
 
 } // namespace SAX
diff --git a/include/SAX/filter/XMLBaseTracker.hpp b/include/SAX/filter/XMLBaseTracker.hpp
index 6a3b170..52475a0 100644
--- a/include/SAX/filter/XMLBaseTracker.hpp
+++ b/include/SAX/filter/XMLBaseTracker.hpp
@@ -21,18 +21,21 @@ public:
   typedef XMLReaderInterface<string_type, string_adaptor> XMLReaderT;
   typedef Locator<string_type, string_adaptor> LocatorT;
   typedef Attributes<string_type, string_adaptor> AttributesT;
+  typedef InputSource<string_type, string_adaptor> InputSourceT;
 
   XMLBaseTracker() : 
     XMLFilterT(),
     locator_(0),
-    base_set_(false)
+    base_set_(false),
+    location_set_(false)
   { 
   } // XMLBaseTracker
 
   XMLBaseTracker(XMLReaderT& parent) : 
     XMLFilterT(parent),
     locator_(0),
-    base_set_(false)
+    base_set_(false),
+    location_set_(false)
   { 
   } // XMLBaseTracker
 
@@ -40,6 +43,8 @@ public:
 
   void setDocumentLocation(const string_type& loc)
   {
+    location_ = loc;
+    location_set_ = true;
     setDocLoc(loc);
   } // setDocumentLocation
 
@@ -49,9 +54,24 @@ public:
     XMLFilterT::setDocumentLocator(locator);
   } // setDocumentLocator
 
+  virtual void parse(InputSourceT& input)
+  {
+    // a previous document may have been abandoned part way
+    xmlbase_.reset();
+    locator_ = 0;
+    base_set_ = false;
+    if(location_set_)
+      setDocLoc(location_);
+
+    XMLFilterT::parse(input);
+  } // parse
+
   virtual void startElement(const string_type& namespaceURI, const string_type& localName,
                             const string_type& qName, const AttributesT& atts)
   {
+    if(!base_set_ && locator_)
+      setDocLoc(locator_->getSystemId());
+
     xmlbase_.startElement(atts);
     XMLFilterT::startElement(namespaceURI, localName, qName, atts);
   } // startElement
@@ -87,6 +107,8 @@ private:
   mutable XMLBaseSupportT xmlbase_;
   const LocatorT* locator_;
   mutable bool base_set_;
+  string_type location_;
+  bool location_set_;
 }; // class XMLBaseTracker
 
 } // namespace SAX
diff --git a/include/SAX/helpers/XMLBaseSupport.hpp b/include/SAX/helpers/XMLBaseSupport.hpp
index ce48dbf..cb958ff 100644
--- a/include/SAX/helpers/XMLBaseSupport.hpp
+++ b/include/SAX/helpers/XMLBaseSupport.hpp
@@ -56,9 +56,15 @@ public:
 
   void setDocumentLocation(const string_type& loc)
   {
-    bases_.push(std::make_pair(-1, loc));
+    bases_.push(std::make_pair(depth_, loc));
   } // setDocumentLocation
 
+  void reset()
+  {
+    bases_ = baseStackT();
+    depth_ = 0;
+  } // reset
+
   void startElement(const AttributesT& atts)
   {
     ++depth_;
@@ -72,7 +78,7 @@ public:
 
   void endElement()
   {
-    if(currentDepth() == depth_)
+    while(currentDepth() == depth_)
       bases_.pop();
     --depth_;
   } // endElement
-- 
2.43.0


From c6411545c88cbcd606e7120d3e25ccac9d2373da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:50 +0000
Subject: [PATCH 13/50] fix: SAX Writer began a document with what an abandoned
 one had left pending

---
 include/SAX/filter/Writer.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/SAX/filter/Writer.hpp b/include/SAX/filter/Writer.hpp
index 213f080..7051146 100644
--- a/include/SAX/filter/Writer.hpp
+++ b/include/SAX/filter/Writer.hpp
@@ -170,7 +170,12 @@ class Writer : public XMLFilterImpl<string_type, string_adaptor>
 template<class string_type, class string_adaptor>
 void Writer<string_type, string_adaptor>::startDocument()
 {
-  startElementClose();
+  // a previous document may have been abandoned part way
+  prefixMappings_.clear();
+  inStartTag_ = false;
+  inDTD_ = false;
+  internalSubset_ = true;
+
   *stream_ << UnicodeT::LESS_THAN_SIGN
            << UnicodeT::QUESTION_MARK
            << UnicodeT::LOWERCASE_X
-- 
2.43.0


From 19ae2d3ebaab122d529f50c1e0fd675d5bbb3510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:46 +0000
Subject: [PATCH 14/50] fix: SAX2DOM carried entities and doctype over between
 documents, lost notations, put the DTD's comments into the document, and
 crashed on broken input in the DTD or in nested entities

---
 include/DOM/SAX2DOM/SAX2DOM.hpp | 85 ++++++++++++++++++++++-----------
 1 file changed, 57 insertions(+), 28 deletions(-)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index 19152c9..2a1aed3 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -99,6 +99,8 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
       DOM::DOMImplementation<stringT, string_adaptorT> di = Arabica::SimpleDOM::DOMImplementation<stringT, string_adaptorT>::getDOMImplementation();
       document_ = di.createDocument(string_adaptorT::construct_from_utf8(""), string_adaptorT::construct_from_utf8(""), 0);
       currentNode_ = document_;
+      documentType_ = 0;
+      declaredEntities_.clear();
       inCDATA_ = false;
       inDTD_ = false;
       inEntity_ = 0;
@@ -107,6 +109,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
       TextCoalescerT parser(base_parser);
       parser.setContentHandler(*this);
       parser.setErrorHandler(*this);
+      parser.setDTDHandler(*this);
       if(entityResolver_)
         parser.setEntityResolver(*entityResolver_);
 
@@ -121,7 +124,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
       }
       catch(const DOM::DOMException& de)
       {
-        document_ = 0;
+        reset();
 
         if(errorHandler_)
         {
@@ -129,7 +132,14 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
           errorHandler_->fatalError(pe);
         } // if ...
       } // catch
+      catch(...)
+      {
+        reset();
+        throw;
+      } // catch
 
+      declaredEntities_.clear();
+      documentType_ = 0;
       return (document_ != 0);
     } // loadDOM
 
@@ -141,6 +151,10 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
     void reset()
     {
       currentNode_ = 0;
+      entityParent_ = 0;
+      entityMark_ = 0;
+      declaredEntities_.clear();
+      documentType_ = 0;
       document_ = 0;
     } // reset
 
@@ -157,7 +171,8 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
     DOM::Document<stringT, string_adaptorT> document_;
     DocumentType<stringT, string_adaptorT >* documentType_;
     DOM::Node<stringT, string_adaptorT> currentNode_;
-    DOM::Node<stringT, string_adaptorT> cachedCurrent_;
+    DOM::Node<stringT, string_adaptorT> entityParent_; // where the outermost open entity began
+    DOM::Node<stringT, string_adaptorT> entityMark_;   // and the sibling it began after
 
     typedef std::map<stringT, bool> Features;
     Features features_;
@@ -248,7 +263,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void processingInstruction(const stringT& target, const stringT& data)
     {
-      if(currentNode_ == 0)
+      if(currentNode_ == 0 || inDTD_ == true)
         return;
 
       currentNode_.appendChild(document_.createProcessingInstruction(target, data));
@@ -290,6 +305,9 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 			  const stringT& publicId, 
 			  const stringT& systemId)
     {
+      if(document_ == 0)
+        return;
+
       documentType_ = new DocumentType<stringT, string_adaptorT >(name, publicId, systemId);
       document_.insertBefore(documentType_, 0);
       inDTD_ = true;
@@ -297,42 +315,50 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void endDTD()
     {
-      documentType_->setReadOnly(true);
       inDTD_ = false;
+      if(documentType_)
+        documentType_->setReadOnly(true);
     } // endDTD
 
-    virtual void startEntity(const stringT& name)
+    virtual void startEntity(const stringT& /*name*/)
     {
-      if(currentNode_ == 0)
+      if(currentNode_ == 0 || inDTD_ == true)
         return;
 
+      // the entity's content is built where it is referenced
       if(++inEntity_ == 1)
       {
-        cachedCurrent_ = currentNode_;
-        currentNode_ = declaredEntities_[name];
-        if(currentNode_ != 0 && currentNode_.hasChildNodes() == true) // already populated
-          currentNode_ = 0;
+        entityParent_ = currentNode_;
+        entityMark_ = currentNode_.getLastChild();
       }
     } // startEntity
 
     virtual void endEntity(const stringT& name)
     {
-      if(--inEntity_ == 0)
-        currentNode_ = cachedCurrent_;
+      if(currentNode_ == 0 || inDTD_ == true)
+        return;
 
-      if(this->dtd_pseudo_entity == name)
+      if(--inEntity_ != 0 || currentNode_ != entityParent_)
         return;
-	  
-	  const EntityT* declared = declaredEntities_[name];
-	  if(declared != 0 && declared->getLength() != 0)
-	  {
-		for(DOM::Node<stringT, string_adaptorT> child = declared->getFirstChild();
-            child != 0;
-		    child = child.getNextSibling())
-		  currentNode_.appendChild(child.cloneNode(true));
-	  }
-	  else
+
+      DOM::Node<stringT, string_adaptorT> child = (entityMark_ != 0) ? entityMark_.getNextSibling() : currentNode_.getFirstChild();
+      entityParent_ = 0;
+      entityMark_ = 0;
+
+      if(child == 0)
+      {
         currentNode_.appendChild(document_.createEntityReference(name));
+        return;
+      } // if ...
+
+      typename std::map<stringT, EntityT*>::const_iterator declared = declaredEntities_.find(name);
+      if(declared == declaredEntities_.end() || declared->second->getLength() != 0)
+        return;
+
+      // an external entity, seen for the first time
+      DOM::Node<stringT, string_adaptorT> entity = declared->second;
+      for( ; child != 0; child = child.getNextSibling())
+        entity.appendChild(child.cloneNode(true));
     } // endEntity
 
     virtual void startCDATA()
@@ -347,7 +373,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void comment(const stringT& text)
     {
-      if(currentNode_ == 0)
+      if(currentNode_ == 0 || inDTD_ == true)
         return;
 
       currentNode_.appendChild(document_.createComment(text));
@@ -378,17 +404,19 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void internalEntityDecl(const stringT& name, const stringT& value)
     {
-      if(!documentType_)
+      if(!documentType_ || declaredEntities_.find(name) != declaredEntities_.end())
         return;
 
       static const stringT LEFT_ANGLE_BRACKET = string_adaptorT::construct_from_utf8("<");
+      static const stringT AMPERSAND = string_adaptorT::construct_from_utf8("&");
 
       EntityT* entity = new EntityT(0, name, string_adaptorT::construct_from_utf8(""), string_adaptorT::construct_from_utf8(""), string_adaptorT::construct_from_utf8(""));
       declaredEntities_.insert(std::make_pair(name, entity));
       documentType_->addEntity(entity);
       DOM::Node<stringT, string_adaptorT> n = entity;
 
-      if(string_adaptorT::find(value, LEFT_ANGLE_BRACKET) == string_adaptorT::npos())
+      if(string_adaptorT::find(value, LEFT_ANGLE_BRACKET) == string_adaptorT::npos() &&
+         string_adaptorT::find(value, AMPERSAND) == string_adaptorT::npos())
       {
         n.appendChild(document_.createTextNode(value));
         return;
@@ -405,7 +433,8 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
       Arabica::SAX::InputSource<stringT, string_adaptorT> is(ss);
       Arabica::SAX2DOM::Parser<stringT, string_adaptorT> parser;
-      parser.parse(is);       
+      if(!parser.parse(is))
+        return; // refers to other entities or prefixes, so can't stand alone
 
       DOM::Document<stringT, string_adaptorT> entityDoc = parser.getDocument();
       DOM::Element<stringT, string_adaptorT> entityElem = entityDoc.getDocumentElement();
@@ -423,7 +452,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void externalEntityDecl(const stringT& name, const stringT& publicId, const stringT& systemId)
     {
-      if(!documentType_)
+      if(!documentType_ || declaredEntities_.find(name) != declaredEntities_.end())
         return;
       EntityT* entity = new EntityT(0, name, publicId, systemId, string_adaptorT::construct_from_utf8(""));
       declaredEntities_.insert(std::make_pair(name, entity)); // we'll populate it later
-- 
2.43.0


From 3335cc0b08cf25e6d6351cd968657be887f5115b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:44 +0000
Subject: [PATCH 15/50] fix: DOM output lost namespaces where prefixes clash,
 repeated CDATA around ]]>, crashed on orphan elements and kept prefixes of
 output that threw; Writer repeated namespace declarations and wrote DTD
 literals unescaped; parameter entities were not told apart; CR was lost from
 text

---
 include/DOM/SAX2DOM/SAX2DOM.hpp   |  10 +-
 include/DOM/io/Stream.hpp         | 270 ++++++++++++++++++++----------
 include/SAX/filter/Writer.hpp     |  58 +++++--
 include/SAX/wrappers/saxexpat.hpp |   7 +-
 include/XML/escaper.hpp           |  10 ++
 5 files changed, 246 insertions(+), 109 deletions(-)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index 2a1aed3..4c7845e 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -404,7 +404,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void internalEntityDecl(const stringT& name, const stringT& value)
     {
-      if(!documentType_ || declaredEntities_.find(name) != declaredEntities_.end())
+      if(!documentType_ || isParameterEntity(name) || declaredEntities_.find(name) != declaredEntities_.end())
         return;
 
       static const stringT LEFT_ANGLE_BRACKET = string_adaptorT::construct_from_utf8("<");
@@ -452,13 +452,19 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void externalEntityDecl(const stringT& name, const stringT& publicId, const stringT& systemId)
     {
-      if(!documentType_ || declaredEntities_.find(name) != declaredEntities_.end())
+      if(!documentType_ || isParameterEntity(name) || declaredEntities_.find(name) != declaredEntities_.end())
         return;
       EntityT* entity = new EntityT(0, name, publicId, systemId, string_adaptorT::construct_from_utf8(""));
       declaredEntities_.insert(std::make_pair(name, entity)); // we'll populate it later
       documentType_->addEntity(entity);
     } // externalEntityDecl
 
+    static bool isParameterEntity(const stringT& name)
+    {
+      static const stringT PERCENT = string_adaptorT::construct_from_utf8("%");
+      return string_adaptorT::find(name, PERCENT) == 0;
+    } // isParameterEntity
+
     /////////////////////////////////////////////////////////////////////////
     // DTDHandler
     virtual void notationDecl(const stringT& name, const stringT& publicId, const stringT& systemId)
diff --git a/include/DOM/io/Stream.hpp b/include/DOM/io/Stream.hpp
index ace6cf9..7a818a7 100644
--- a/include/DOM/io/Stream.hpp
+++ b/include/DOM/io/Stream.hpp
@@ -25,6 +25,9 @@
 #include <iostream>
 #include <algorithm>
 #include <map>
+#include <set>
+#include <sstream>
+#include <vector>
 #include <text/UnicodeCharacters.hpp>
 #include <XML/escaper.hpp>
 
@@ -36,61 +39,154 @@ namespace DOM
 namespace StreamImpl
 {
 
+// the namespace declarations made on one element, and the prefix its tags carry
 template<class stringT>
-void prefix_mapper_callback(std::ios_base::event ev, std::ios_base& stream, int index)
+struct element_scope
 {
-  if(ev == std::ios_base::erase_event)
-    delete static_cast<std::vector<std::map<stringT, stringT> >*>(stream.pword(index));
-} // boing_callback
+  std::map<stringT, stringT> declared;  // prefix -> namespace URI
+  stringT prefix;
+}; // element_scope
 
 template<class stringT>
-std::pair<bool, stringT> is_uri_declared(std::vector<std::map<stringT, stringT> >* prefix_stack, const stringT& namespaceURI)
+struct prefix_scopes
 {
-  stringT declared_prefix;
-  for(typename std::vector<std::map<stringT, stringT> >::reverse_iterator b = prefix_stack->rbegin(), e = prefix_stack->rend();
-        b != e;
-        ++b)
+  typedef std::vector<element_scope<stringT> > stack;
+  stack scopes;
+
+  // what does prefix stand for at this point?
+  std::pair<bool, stringT> lookup(const stringT& prefix) const
   {
-    typename std::map<stringT, stringT>::const_iterator p = b->find(namespaceURI);
-    if(p != b->end())
-      return std::make_pair(true, p->second);
-  } // for ...
+    for(typename stack::const_reverse_iterator s = scopes.rbegin(), e = scopes.rend(); s != e; ++s)
+    {
+      typename std::map<stringT, stringT>::const_iterator p = s->declared.find(prefix);
+      if(p != s->declared.end())
+        return std::make_pair(true, p->second);
+    } // for ...
+    return std::make_pair(false, stringT());
+  } // lookup
+
+  // a prefix which, at this point, stands for namespaceURI
+  std::pair<bool, stringT> find(const stringT& namespaceURI, const bool empty_prefix_allowed) const
+  {
+    const stringT none;
+    for(typename stack::const_reverse_iterator s = scopes.rbegin(), e = scopes.rend(); s != e; ++s)
+      for(typename std::map<stringT, stringT>::const_iterator p = s->declared.begin(), pe = s->declared.end(); p != pe; ++p)
+        if((p->second == namespaceURI) &&
+           (empty_prefix_allowed || !(p->first == none)) &&
+           (lookup(p->first).second == namespaceURI))
+          return std::make_pair(true, p->first);
+    return std::make_pair(false, none);
+  } // find
+}; // prefix_scopes
+
+// keeps the prefix scopes in the stream while an element, and its content, is written
+template<class stringT, class charT, class traitsT>
+class scope_keeper
+{
+public:
+  explicit scope_keeper(std::basic_ostream<charT, traitsT>& stream) :
+    stream_(stream),
+    outermost_(stream.pword(index()) == 0)
+  {
+    if(outermost_)
+    {
+      stream_.pword(index()) = new prefix_scopes<stringT>();
+      stream_.iword(index()) = 0;
+    } // if ...
+    try {
+      scopes().scopes.push_back(element_scope<stringT>());
+    } // try
+    catch(...) {
+      release();
+      throw;
+    } // catch
+  } // scope_keeper
+
+  ~scope_keeper()
+  {
+    scopes().scopes.pop_back();
+    release();
+  } // ~scope_keeper
 
-  return std::make_pair(false, stringT());
-} // is_uri_declared
+  bool outermost() const { return outermost_; }
+  prefix_scopes<stringT>& scopes() { return *static_cast<prefix_scopes<stringT>*>(stream_.pword(index())); }
+  element_scope<stringT>& current() { return scopes().scopes.back(); }
+  long& generated() { return stream_.iword(index()); }
 
+private:
+  static int index()
+  {
+    static const int index = std::ios_base::xalloc();
+    return index;
+  } // index
+
+  void release()
+  {
+    if(!outermost_)
+      return;
+    delete static_cast<prefix_scopes<stringT>*>(stream_.pword(index()));
+    stream_.pword(index()) = 0;
+  } // release
+
+  std::basic_ostream<charT, traitsT>& stream_;
+  const bool outermost_;
+
+  scope_keeper(const scope_keeper&);
+  scope_keeper& operator=(const scope_keeper&);
+}; // scope_keeper
+
+// chooses the prefix for node, declaring it on the current element if necessary
+// reserved are those prefixes which already mean something on the current element
 template<class stringT, class string_adaptorT, class charT, class traitsT>
-void check_and_output_node_name(std::basic_ostream<charT, traitsT>& stream, 
-                                const DOM::Node<stringT, string_adaptorT>& node, 
-                                std::vector<std::map<stringT, stringT> >* prefix_stack,
-				const bool is_attribute,
-				const long index)
+stringT choose_prefix(scope_keeper<stringT, charT, traitsT>& keeper,
+                      const DOM::Node<stringT, string_adaptorT>& node,
+                      std::map<stringT, stringT>& reserved,
+                      const bool is_attribute)
 {
-  std::map<stringT, stringT>& current = *(prefix_stack->rbegin());
+  const stringT namespaceURI = node.getNamespaceURI();
+  std::pair<bool, stringT> prefix = keeper.scopes().find(namespaceURI, !is_attribute);
 
-  stringT namespaceURI = node.getNamespaceURI();
-  if(!string_adaptorT::empty(namespaceURI))
+  if(!prefix.first)
   {
-    std::pair<bool, stringT> prefix = is_uri_declared(prefix_stack, namespaceURI);
-    
-    if(!prefix.first)
+    static const stringT xml = string_adaptorT::construct_from_utf8("xml");
+    static const stringT xmlns = string_adaptorT::construct_from_utf8("xmlns");
+
+    prefix.second = node.getPrefix();
+    if((is_attribute && string_adaptorT::empty(prefix.second)) ||
+       (reserved.find(prefix.second) != reserved.end()) ||
+       (prefix.second == xml) || (prefix.second == xmlns))
     {
-      current[namespaceURI] = prefix.second = node.getPrefix();
-      if(is_attribute && string_adaptorT::empty(prefix.second))
+      do
       {
-	std::ostringstream os;
-	os << 'a' << stream.iword(index)++;
-	current[namespaceURI] = prefix.second = string_adaptorT::construct_from_utf8(os.str().c_str());
-      } // if ...
+        std::ostringstream os;
+        os << 'a' << keeper.generated()++;
+        prefix.second = string_adaptorT::construct_from_utf8(os.str().c_str());
+      }
+      while(keeper.scopes().lookup(prefix.second).first ||
+            (reserved.find(prefix.second) != reserved.end()));
     } // if ...
+    keeper.current().declared[prefix.second] = namespaceURI;
+  } // if ...
 
-    if(!string_adaptorT::empty(prefix.second))
-      stream << prefix.second << Arabica::text::Unicode<charT>::COLON;
-    stream << node.getLocalName();
-  }
-  else
+  reserved[prefix.second] = namespaceURI;
+  return prefix.second;
+} // choose_prefix
+
+template<class stringT, class string_adaptorT, class charT, class traitsT>
+void output_node_name(std::basic_ostream<charT, traitsT>& stream,
+                      const DOM::Node<stringT, string_adaptorT>& node,
+                      const stringT& prefix)
+{
+  if(string_adaptorT::empty(node.getNamespaceURI()))
+  {
     stream << node.getNodeName();
-} // check_and_output_node_name
+    return;
+  } // if ...
+
+  if(!string_adaptorT::empty(prefix))
+    stream << prefix << Arabica::text::Unicode<charT>::COLON;
+  stream << node.getLocalName();
+} // output_node_name
 
 template<class stringT, class string_adaptorT, class charT>
 bool isXmlns(const stringT& str)
@@ -124,43 +220,43 @@ bool compare_nodes_by_name(const DOM::Node<stringT, string_adaptorT>& lhs,
 } // class compare_nodes_by_name
 
 template<class stringT, class string_adaptorT, class charT, class traitsT>
-int prefix_mapper(std::basic_ostream<charT, traitsT>& stream,
-                  const DOM::Node<stringT, string_adaptorT>& node)
+void prefix_mapper(std::basic_ostream<charT, traitsT>& stream,
+                   const DOM::Node<stringT, string_adaptorT>& node,
+                   scope_keeper<stringT, charT, traitsT>& keeper)
 {
   typedef Arabica::text::Unicode<charT> UnicodeT;
 
-  static const int index = std::ios_base::xalloc();
-  std::vector<std::map<stringT, stringT> >* prefix_stack;
-  
-  if(stream.pword(index) != 0)
-  {
-    prefix_stack = static_cast<std::vector<std::map<stringT, stringT> >*>(stream.pword(index));
-    prefix_stack->push_back(std::map<stringT, stringT>());
-  }
-  else
+  const stringT none;
+  std::map<stringT, stringT> inherited;
+  if(keeper.outermost())
   {
-    prefix_stack = new std::vector<std::map<stringT, stringT> >;
-    stream.pword(index) = prefix_stack;
-    stream.iword(index) = 0;
+    static const stringT xml = string_adaptorT::construct_from_utf8("xml");
+    static const stringT xml_uri = string_adaptorT::construct_from_utf8("http://www.w3.org/XML/1998/namespace");
 
-    std::map<stringT, stringT> prefixes;
-    for(DOM::Node<stringT, string_adaptorT> p = node.getParentNode(); 
-        p.getNodeType() == DOM::Node_base::ELEMENT_NODE; 
+    // what the ancestors declare is in scope, but has not been written
+    for(DOM::Node<stringT, string_adaptorT> p = node.getParentNode();
+        (p != 0) && (p.getNodeType() == DOM::Node_base::ELEMENT_NODE);
         p = p.getParentNode())
-    {
-      if(string_adaptorT::empty(p.getNamespaceURI()))
-        continue;
-      if(prefixes.find(p.getNamespaceURI()) == prefixes.end())
-        prefixes[p.getNamespaceURI()] = p.getPrefix();
-    } // for ...
+      if((inherited.find(p.getPrefix()) == inherited.end()) && !(p.getNamespaceURI() == xml_uri))
+        inherited[p.getPrefix()] = p.getNamespaceURI();
 
-    prefix_stack->push_back(prefixes);
+    keeper.current().declared = inherited;
+    keeper.current().declared[xml] = xml_uri;
+    keeper.scopes().scopes.push_back(element_scope<stringT>());
   } // if ...
 
-  std::map<stringT, stringT>& current = *(prefix_stack->rbegin());
+  std::map<stringT, stringT> reserved;
 
   // is element namespace URI declared?
-  check_and_output_node_name(stream, node, prefix_stack, false, index);
+  if(!string_adaptorT::empty(node.getNamespaceURI()))
+    keeper.current().prefix = choose_prefix(keeper, node, reserved, false);
+  else
+  {
+    if(!string_adaptorT::empty(keeper.scopes().lookup(none).second))
+      keeper.current().declared[none] = none;
+    reserved[none] = none;
+  } // if ...
+  output_node_name(stream, node, keeper.current().prefix);
   
   const DOM::NamedNodeMap<stringT, string_adaptorT> attrs = node.getAttributes();
   std::vector<DOM::Node<stringT, string_adaptorT> > attrNodes;
@@ -178,7 +274,10 @@ int prefix_mapper(std::basic_ostream<charT, traitsT>& stream,
        isXmlns<stringT, string_adaptorT, charT>(attr.getPrefix()))
       continue;
     stream << UnicodeT::SPACE;
-    check_and_output_node_name(stream, attr, prefix_stack, true, index);
+    stringT prefix;
+    if(!string_adaptorT::empty(attr.getNamespaceURI()))
+      prefix = choose_prefix(keeper, attr, reserved, true);
+    output_node_name(stream, attr, prefix);
     stream  << UnicodeT::EQUALS_SIGN
             << UnicodeT::QUOTATION_MARK;
     stringT value = attr.getNodeValue();
@@ -188,7 +287,16 @@ int prefix_mapper(std::basic_ostream<charT, traitsT>& stream,
     stream << UnicodeT::QUOTATION_MARK;
   }
 
-  for(typename std::map<stringT, stringT>::const_iterator i = current.begin(), e = current.end();
+  std::map<stringT, stringT> declarations = keeper.current().declared;
+  declarations.insert(inherited.begin(), inherited.end());
+  if(keeper.outermost() && string_adaptorT::empty(declarations[none]))
+    declarations.erase(none);
+
+  std::set<std::pair<stringT, stringT> > ordered;
+  for(typename std::map<stringT, stringT>::const_iterator i = declarations.begin(), e = declarations.end(); i != e; ++i)
+    ordered.insert(std::make_pair(i->second, i->first));
+
+  for(typename std::set<std::pair<stringT, stringT> >::const_iterator i = ordered.begin(), e = ordered.end();
       i != e;
       ++i)
   {
@@ -206,30 +314,8 @@ int prefix_mapper(std::basic_ostream<charT, traitsT>& stream,
                   Arabica::XML::attribute_escaper<charT, traitsT>(stream));
     stream << UnicodeT::QUOTATION_MARK;
   } // for ...
-
-  return index;
 } // prefix_mapper
 
-template<class stringT, class string_adaptorT, class charT, class traitsT>
-void prefix_mapper_pop(std::basic_ostream<charT, traitsT>& stream,
-                       const DOM::Node<stringT, string_adaptorT>& node,
-                       int index, 
-                       bool output)
-{
-  std::vector<std::map<stringT, stringT> >* prefix_stack = 
-    static_cast<std::vector<std::map<stringT, stringT> >*>(stream.pword(index));
-
-  if(output)
-    check_and_output_node_name(stream, node, prefix_stack, false, index);
-
-  prefix_stack->pop_back();
-  if(prefix_stack->empty())
-  {
-    delete static_cast<std::vector<std::map<stringT, stringT> >*>(stream.pword(index));
-    stream.pword(index) = 0;
-  } // if ...
-} // prefix_mapper_pop
-
 //////////////////////////////////////
 //////////////////////////////////////
 template<class stringT, class string_adaptorT, class charT, class traitsT>
@@ -249,19 +335,19 @@ void streamElement(std::basic_ostream<charT, traitsT>& stream, const DOM::Node<s
   typedef Arabica::text::Unicode<charT> UnicodeT;
 
   stream << UnicodeT::LESS_THAN_SIGN;
-  int index = StreamImpl::prefix_mapper(stream, node);
+  StreamImpl::scope_keeper<stringT, charT, traitsT> keeper(stream);
+  StreamImpl::prefix_mapper(stream, node, keeper);
 
   if(node.hasChildNodes())
   {
     stream << UnicodeT::GREATER_THAN_SIGN;
     StreamImpl::streamChildren(stream, node);
     stream << UnicodeT::LESS_THAN_SIGN << UnicodeT::SLASH;
-    StreamImpl::prefix_mapper_pop(stream, node, index, true);
+    StreamImpl::output_node_name(stream, node, keeper.current().prefix);
     stream << UnicodeT::GREATER_THAN_SIGN;
   }
   else
   {
-    StreamImpl::prefix_mapper_pop(stream, node, index, false);
     stream << UnicodeT::SLASH << UnicodeT::GREATER_THAN_SIGN;
   }
 } // streamElement
@@ -311,7 +397,7 @@ void streamCDATA(std::basic_ostream<charT, traitsT>& stream, const DOM::Node<str
     do
     {
       breakAt += 2;
-      stream << string_adaptorT::substr(value, start, breakAt);
+      stream << string_adaptorT::substr(value, start, breakAt - start);
       StreamImpl::endCDATA(stream);
       start = breakAt;
       StreamImpl::startCDATA(stream);
diff --git a/include/SAX/filter/Writer.hpp b/include/SAX/filter/Writer.hpp
index 7051146..ba9c541 100644
--- a/include/SAX/filter/Writer.hpp
+++ b/include/SAX/filter/Writer.hpp
@@ -144,6 +144,7 @@ class Writer : public XMLFilterImpl<string_type, string_adaptor>
   protected:
     /////////////////
     void startEntityDecl(const string_type& name);
+    void entityValue(const string_type& value);
     void publicAndSystem(const string_type& publicId, const string_type& systemId);
     void doIndent();
     bool isDtd(const string_type& name);
@@ -268,8 +269,14 @@ void Writer<string_type, string_adaptor>::startElementOpen(
   doIndent();
   *stream_ << UnicodeT::LESS_THAN_SIGN << (!qName.empty() ? qName : localName);
 
-  writeAttributes(prefixMappings_);
+  // the declarations may be among the attributes too
+  AttributesImplT declarations;
+  for(int i = 0; i < prefixMappings_.getLength(); ++i)
+    if(atts.getIndex(prefixMappings_.getQName(i)) == -1)
+      declarations.addAttribute(prefixMappings_.getURI(i), prefixMappings_.getLocalName(i), prefixMappings_.getQName(i),
+                                prefixMappings_.getType(i), prefixMappings_.getValue(i));
   prefixMappings_.clear();
+  writeAttributes(declarations);
   writeAttributes(atts);
 
   inStartTag_ = true;
@@ -637,11 +644,14 @@ void Writer<string_type, string_adaptor>::attributeDecl(const string_type& eleme
       *stream_ << UnicodeT::SPACE
                << valueDefault;
 
-    if(!value.empty())
+    // neither #REQUIRED nor #IMPLIED
+    if(!value.empty() || valueDefault.empty() || (valueDefault.length() == 6))
+    {
       *stream_ << UnicodeT::SPACE
-               << UnicodeT::QUOTATION_MARK
-               << value
                << UnicodeT::QUOTATION_MARK;
+      std::for_each(value.begin(), value.end(), attribute_escaperT(*stream_));
+      *stream_ << UnicodeT::QUOTATION_MARK;
+    } // if ...
 
     *stream_ << UnicodeT::GREATER_THAN_SIGN
              << std::endl;
@@ -658,11 +668,9 @@ void Writer<string_type, string_adaptor>::internalEntityDecl(const string_type&
   {
     doIndent();
     startEntityDecl(name);
-    *stream_ << UnicodeT::SPACE
-             << UnicodeT::QUOTATION_MARK
-             << value
-             << UnicodeT::QUOTATION_MARK
-             << UnicodeT::GREATER_THAN_SIGN
+    *stream_ << UnicodeT::SPACE;
+    entityValue(value);
+    *stream_ << UnicodeT::GREATER_THAN_SIGN
              << std::endl;
   } // if ...
 
@@ -697,10 +705,32 @@ void Writer<string_type, string_adaptor>::startEntityDecl(const string_type& nam
            << UnicodeT::CAPITAL_I
            << UnicodeT::CAPITAL_T
            << UnicodeT::CAPITAL_Y
-           << UnicodeT::SPACE
-           << name;
+           << UnicodeT::SPACE;
+
+  if(!name.empty() && (name[0] == UnicodeT::PERCENT_SIGN))
+    *stream_ << UnicodeT::PERCENT_SIGN
+             << UnicodeT::SPACE
+             << string_type(name.begin() + 1, name.end());
+  else
+    *stream_ << name;
 } // startEntityDecl
 
+template<class string_type, class string_adaptor>
+void Writer<string_type, string_adaptor>::entityValue(const string_type& value)
+{
+  *stream_ << UnicodeT::QUOTATION_MARK;
+  for(typename string_type::const_iterator i = value.begin(), e = value.end(); i != e; ++i)
+    if(*i == UnicodeT::QUOTATION_MARK || *i == UnicodeT::PERCENT_SIGN ||
+       *i == UnicodeT::AMPERSAND || *i == UnicodeT::CARRIAGE_RETURN)
+      *stream_ << UnicodeT::AMPERSAND
+               << UnicodeT::NUMBER_SIGN
+               << static_cast<int>(*i)
+               << UnicodeT::SEMI_COLON;
+    else
+      *stream_ << *i;
+  *stream_ << UnicodeT::QUOTATION_MARK;
+} // entityValue
+
 template<class string_type, class string_adaptor>
 void Writer<string_type, string_adaptor>::publicAndSystem(const string_type& publicId, const string_type& systemId)
 {
@@ -728,10 +758,12 @@ void Writer<string_type, string_adaptor>::publicAndSystem(const string_type& pub
                << UnicodeT::CAPITAL_T
                << UnicodeT::CAPITAL_E
                << UnicodeT::CAPITAL_M;
+    // can't be escaped, but won't contain both kinds of quotes
+    const bool quoted = std::find(systemId.begin(), systemId.end(), UnicodeT::QUOTATION_MARK) != systemId.end();
     *stream_ << UnicodeT::SPACE
-             << UnicodeT::QUOTATION_MARK
+             << (quoted ? UnicodeT::APOSTROPHE : UnicodeT::QUOTATION_MARK)
              << systemId
-             << UnicodeT::QUOTATION_MARK;
+             << (quoted ? UnicodeT::APOSTROPHE : UnicodeT::QUOTATION_MARK);
   } // if ...
 } // publicAndSystem
 
diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index 6ff9c13..08df4f6 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -944,7 +944,7 @@ void expat_wrapper<string_type, T0, T1>::attListDeclaration(const XML_Char* elna
 
 template<class string_type, class T0, class T1>
 void expat_wrapper<string_type, T0, T1>::entityDeclaration(const XML_Char* entityName,
-                           int /*is_parameter_entity*/,
+                           int is_parameter_entity,
                            const XML_Char* value,
                            int value_length,
                            const XML_Char* /*base*/,
@@ -963,7 +963,10 @@ void expat_wrapper<string_type, T0, T1>::entityDeclaration(const XML_Char* entit
    provided. The notationName argument will have a non-null value only
    for unparsed entity declarations. */
 
-  const string_type s_entityName(SA::construct_from_utf8(entityName));
+  // the names of parameter entities start with %
+  const string_type s_entityName(is_parameter_entity ? 
+                                   SA::construct_from_utf8(("%" + std::string(entityName)).c_str()) :
+                                   SA::construct_from_utf8(entityName));
   if(!systemId && !publicId && !notationName)
   {
     // internal entity!
diff --git a/include/XML/escaper.hpp b/include/XML/escaper.hpp
index 0bc054f..66507ea 100644
--- a/include/XML/escaper.hpp
+++ b/include/XML/escaper.hpp
@@ -45,6 +45,16 @@ class text_escaper
                 << UnicodeT::SEMI_COLON;
 	      return;
       } // if(ch == case UnicodeT::AMPERSAND)
+      if(ch == UnicodeT::CARRIAGE_RETURN)
+      {
+        // would be read back as a line feed
+        stream_ << UnicodeT::AMPERSAND
+                << UnicodeT::NUMBER_SIGN
+                << UnicodeT::LOWERCASE_X
+                << UnicodeT::CAPITAL_D
+                << UnicodeT::SEMI_COLON;
+        return;
+      } // if(ch == UnicodeT::CARRIAGE_RETURN)
 
       stream_ << ch;
     } // operator()
-- 
2.43.0


From b376f9c1437b521d74fcb8d0c4793669638fe0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:00 +0000
Subject: [PATCH 16/50] fix: XSLT output put elements of no namespace into the
 default namespace; DOM output gives attributes a prefix of their own where
 their namespace is the default

---
 include/DOM/io/Stream.hpp                  | 5 ++++-
 include/XSLT/impl/xslt_namespace_stack.hpp | 6 ++++++
 include/XSLT/impl/xslt_output.hpp          | 2 ++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/DOM/io/Stream.hpp b/include/DOM/io/Stream.hpp
index 7a818a7..288af14 100644
--- a/include/DOM/io/Stream.hpp
+++ b/include/DOM/io/Stream.hpp
@@ -151,8 +151,11 @@ stringT choose_prefix(scope_keeper<stringT, charT, traitsT>& keeper,
     static const stringT xml = string_adaptorT::construct_from_utf8("xml");
     static const stringT xmlns = string_adaptorT::construct_from_utf8("xmlns");
 
+    // an attribute can't make use of the default namespace
+    const bool needs_own = is_attribute && keeper.scopes().find(namespaceURI, true).first;
+
     prefix.second = node.getPrefix();
-    if((is_attribute && string_adaptorT::empty(prefix.second)) ||
+    if(needs_own || (is_attribute && string_adaptorT::empty(prefix.second)) ||
        (reserved.find(prefix.second) != reserved.end()) ||
        (prefix.second == xml) || (prefix.second == xmlns))
     {
diff --git a/include/XSLT/impl/xslt_namespace_stack.hpp b/include/XSLT/impl/xslt_namespace_stack.hpp
index 79516b1..e64f7de 100644
--- a/include/XSLT/impl/xslt_namespace_stack.hpp
+++ b/include/XSLT/impl/xslt_namespace_stack.hpp
@@ -50,6 +50,12 @@ public:
     uriStack_.back()[namespaceURI] = prefix;
   } // declareNamespace
 
+  void undeclareDefaultNamespace()
+  {
+    if(!string_adaptor::empty(findURI(EMPTY_STRING)))
+      prefixStack_.back()[EMPTY_STRING] = EMPTY_STRING;
+  } // undeclareDefaultNamespace
+
   const string_type& findURI(const string_type& prefix) const
   {
     return searchStack(prefixStack_, prefix);
diff --git a/include/XSLT/impl/xslt_output.hpp b/include/XSLT/impl/xslt_output.hpp
index f692d80..49f1e1d 100644
--- a/include/XSLT/impl/xslt_output.hpp
+++ b/include/XSLT/impl/xslt_output.hpp
@@ -67,6 +67,8 @@ public:
     namespaceStack_.pushScope();
     if(!string_adaptor::empty(namespaceURI))
       namespaceStack_.declareNamespace(prefix, namespaceURI);
+    else
+      namespaceStack_.undeclareDefaultNamespace();
 
     string_type mapped_prefix = namespaceStack_.findPrefix(namespaceURI);
 
-- 
2.43.0


From d365d1699dff695afdf6795ee163e60b0b42dc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:06 +0000
Subject: [PATCH 17/50] fix: XSLT elements with an empty namespace attribute
 took the stylesheet's default namespace

---
 include/XSLT/impl/handler/xslt_element_handler.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/XSLT/impl/handler/xslt_element_handler.hpp b/include/XSLT/impl/handler/xslt_element_handler.hpp
index 08a7aad..8104dcd 100644
--- a/include/XSLT/impl/handler/xslt_element_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_element_handler.hpp
@@ -39,13 +39,16 @@ protected:
     if(attrs[SC::use_attribute_sets] != string_adaptor::empty_string())
       throw SAX::SAXException("don't understand use-attribute-sets yet");
     
-    if(attrs[SC::namespace_] == string_adaptor::empty_string())
+    // an empty namespace is not the same as no namespace attribute
+    if(atts.getIndex(SC::namespace_) == -1)
       return new Element<string_type, string_adaptor>(name, 
                          baseT::context().inScopeNamespaces(),
                          attrs[SC::use_attribute_sets]);
 
     return new Element<string_type, string_adaptor>(name, 
-                       baseT::context().xpath_attribute_value_template(attrs[SC::namespace_]),
+                       (attrs[SC::namespace_] == string_adaptor::empty_string()) ?
+                         baseT::context().xpath_expression(string_adaptor::construct_from_utf8("''")) :
+                         baseT::context().xpath_attribute_value_template(attrs[SC::namespace_]),
                        attrs[SC::use_attribute_sets]);
   } // createContainer
 }; // class ElementHandler
-- 
2.43.0


From 9ac7489ca1c95d642a6e8b3bb067ef058ff82444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:34 +0000
Subject: [PATCH 18/50] fix: DOM insert and replace calls that fail changed the
 tree; fragments, self-replacement, moves of the document element, splitText
 and document clones were mishandled; ids of removed elements were still found

---
 include/DOM/CDATASection.hpp             |  3 +-
 include/DOM/CharacterData.hpp            |  2 +-
 include/DOM/Simple/CDATASectionImpl.hpp  |  5 +-
 include/DOM/Simple/CharacterDataImpl.hpp | 11 ++++
 include/DOM/Simple/DocumentImpl.hpp      | 80 +++++++++++++++---------
 include/DOM/Simple/NodeImpl.hpp          | 56 ++++++++++++-----
 include/DOM/Simple/TextImpl.hpp          |  1 +
 7 files changed, 108 insertions(+), 50 deletions(-)

diff --git a/include/DOM/CDATASection.hpp b/include/DOM/CDATASection.hpp
index e5b4f15..2c398a3 100644
--- a/include/DOM/CDATASection.hpp
+++ b/include/DOM/CDATASection.hpp
@@ -35,8 +35,7 @@ class CDATASection : public Text<stringT, string_adaptorT>
 
     CDATASection<stringT, string_adaptorT> splitText(int offset) 
     { 
-      TextT::tImpl()->throwIfReadOnly();
-      return static_cast<CDATASection<stringT, string_adaptorT> >(TextT::tImpl()->splitText(offset)); 
+      return CDATASection(TextT::splitText(offset)); 
     } // splitText
 }; // class CDATASection
 
diff --git a/include/DOM/CharacterData.hpp b/include/DOM/CharacterData.hpp
index 02dfd4f..e17af09 100644
--- a/include/DOM/CharacterData.hpp
+++ b/include/DOM/CharacterData.hpp
@@ -30,7 +30,7 @@ class CharacterData : public Node<stringT, string_adaptorT>
 	  if(NodeT::impl_ == 0) // null nodes can always be cast
 		return;
       typename NodeT::Type type = rhs.getNodeType();
-      if((type != NodeT::TEXT_NODE) && (type != NodeT::CDATA_SECTION_NODE))
+      if((type != NodeT::TEXT_NODE) && (type != NodeT::CDATA_SECTION_NODE) && (type != NodeT::COMMENT_NODE))
         throw DOMBadCast("CharacterData");
     } // CharacterData
 
diff --git a/include/DOM/Simple/CDATASectionImpl.hpp b/include/DOM/Simple/CDATASectionImpl.hpp
index 2dbdda5..36e4a65 100644
--- a/include/DOM/Simple/CDATASectionImpl.hpp
+++ b/include/DOM/Simple/CDATASectionImpl.hpp
@@ -35,7 +35,10 @@ class CDATASectionImpl : public DOM::CDATASection_impl<stringT, string_adaptorT>
       CharacterDataImplT::deleteData(offset, CharacterDataImplT::getLength() - offset);
 
       CDATASectionImpl* splitNode = new CDATASectionImpl(CharacterDataImplT::getOwnerDoc(), second);
-      CharacterDataImplT::getParentNode()->insertBefore(splitNode, CharacterDataImplT::getNextSibling());
+      CharacterDataImplT::getOwnerDoc()->orphaned(splitNode);
+      DOM::Node_impl<stringT, string_adaptorT>* parent = CharacterDataImplT::getParentNode();
+      if(parent)
+        parent->insertBefore(splitNode, CharacterDataImplT::getNextSibling());
       return splitNode;
     } // splitText
 
diff --git a/include/DOM/Simple/CharacterDataImpl.hpp b/include/DOM/Simple/CharacterDataImpl.hpp
index d4d34a1..b7735d4 100644
--- a/include/DOM/Simple/CharacterDataImpl.hpp
+++ b/include/DOM/Simple/CharacterDataImpl.hpp
@@ -55,6 +55,7 @@ class CharacterDataImpl : virtual public DOM::CharacterData_impl<stringT, string
     {
       NodeT::throwIfReadOnly();
       string_adaptorT::append(data_, arg);
+      dataChanged();
     } // appendData
 
     virtual void insertData(int offset, const stringT& arg)
@@ -65,6 +66,7 @@ class CharacterDataImpl : virtual public DOM::CharacterData_impl<stringT, string
         throw DOM::DOMException(DOM::DOMException::INDEX_SIZE_ERR);
 
       string_adaptorT::insert(data_, offset, arg);
+      dataChanged();
     } // insertData
 
     virtual void deleteData(int offset, int count)
@@ -77,6 +79,7 @@ class CharacterDataImpl : virtual public DOM::CharacterData_impl<stringT, string
         throw DOM::DOMException(DOM::DOMException::INDEX_SIZE_ERR);
 
       string_adaptorT::replace(data_, offset, count, stringT());
+      dataChanged();
     } // deleteData
 
     virtual void replaceData(int offset, int count, const stringT& arg)
@@ -89,6 +92,7 @@ class CharacterDataImpl : virtual public DOM::CharacterData_impl<stringT, string
         throw DOM::DOMException(DOM::DOMException::INDEX_SIZE_ERR);
 
       string_adaptorT::replace(data_, offset, count, arg);
+      dataChanged();
     } // replaceData
 
     ///////////////////////////////////////////////////////
@@ -103,8 +107,15 @@ class CharacterDataImpl : virtual public DOM::CharacterData_impl<stringT, string
       NodeT::throwIfReadOnly();
 
       data_ = data;
+      dataChanged();
     } // setNodeValue
   private:
+    void dataChanged()
+    {
+      if(NodeT::parentNode_)
+        NodeT::parentNode_->childDataChanged();
+    } // dataChanged
+
     stringT data_;
 }; // class CharacterDataImpl
 
diff --git a/include/DOM/Simple/DocumentImpl.hpp b/include/DOM/Simple/DocumentImpl.hpp
index d83761e..519273b 100644
--- a/include/DOM/Simple/DocumentImpl.hpp
+++ b/include/DOM/Simple/DocumentImpl.hpp
@@ -369,10 +369,10 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
 
     virtual DOMElement_implT* getElementById(const stringT& elementId) const
     {
-      typename std::set<AttrImplT*>::const_iterator i = std::find_if(idNodes_.begin(), idNodes_.end(), valueIs<stringT, string_adaptorT>(elementId));
-      if(i == idNodes_.end())
-        return 0;
-      return (*i)->getOwnerElement();
+      for(typename std::vector<AttrImplT*>::const_iterator i = idNodes_.begin(), ie = idNodes_.end(); i != ie; ++i)
+        if((*i)->getNodeValue() == elementId && isAttached((*i)->getOwnerElement()))
+          return (*i)->getOwnerElement();
+      return 0;
     } // getElementById
 
     ////////////////////////////////////////////////////////
@@ -394,8 +394,7 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
 
     virtual DOMNode_implT* insertBefore(DOMNode_implT* newChild, DOMNode_implT* refChild)
     {
-      if((newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE) && (documentElement_ != 0))
-        throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+      checkElementCount(newChild, documentElement_);
       if((newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE) && (documentType_ != 0))
         throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
 
@@ -411,20 +410,19 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
 
     virtual DOMNode_implT* replaceChild(DOMNode_implT* newChild, DOMNode_implT* oldChild)
     {
-      checkChildType(newChild);
-
-      if((newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE) && (documentType_ == oldChild))
-        throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
-      if((newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE) &&
-         (documentElement_ != 0) &&
-         (documentElement_ != oldChild))
+      if((documentType_ != 0) && 
+         ((newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE) || (documentType_ == oldChild)))
         throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+      checkElementCount(newChild, (documentElement_ != oldChild) ? documentElement_ : 0);
 
       DOMNode_implT* result = NodeWithChildrenT::replaceChild(newChild, oldChild);
 
-      if((newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE) &&
-         ((documentElement_ == 0) || (documentElement_ == oldChild)))
+      if((documentElement_ == oldChild) && (newChild != oldChild))
+        documentElement_ = 0;
+      if(newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE)
         documentElement_ = dynamic_cast<DOMElement_implT*>(newChild);
+      if(newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE)
+        documentType_ = dynamic_cast<DOMDocumentType_implT*>(newChild);
 
       return result;
     } // replaceChild
@@ -449,17 +447,15 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
     virtual DOMNode_implT* cloneNode(bool deep) const
     {
       DocumentImpl* clone = new DocumentImpl(namespaceURI_, qualifiedName_, 0, domImplementation_);
-      if(documentType_ != 0)
-      {
-        DocumentTypeImpl<stringT, string_adaptorT>* dt = dynamic_cast<DocumentTypeImpl<stringT, string_adaptorT>*>(documentType_->cloneNode(true));
-        dt->setOwnerDoc(clone);
-        clone->appendChild(dt);
-      }
-
-      if(deep)
-        for(DOMNode_implT* child = NodeWithChildrenT::getFirstChild(); child != 0; child = child->getNextSibling())
-          if((documentType_ != child) && (child != clone->getDocumentElement()))
-            clone->appendChild(clone->importNode(child, true));
+      for(DOMNode_implT* child = NodeWithChildrenT::getFirstChild(); child != 0; child = child->getNextSibling())
+        if(documentType_ == child)
+        {
+          DocumentTypeImpl<stringT, string_adaptorT>* dt = dynamic_cast<DocumentTypeImpl<stringT, string_adaptorT>*>(documentType_->cloneNode(true));
+          dt->setOwnerDoc(clone);
+          clone->appendChild(dt);
+        }
+        else if(deep)
+          clone->appendChild(clone->importNode(child, true));
 
       return clone;
     } // cloneNode
@@ -482,6 +478,9 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
     void purge(NodeImplT* node)
     {
       orphans_.erase(node);
+      for(size_t i = idNodes_.size(); i != 0; --i)
+        if(contains(node, idNodes_[i-1]->getOwnerElement()))
+          idNodes_.erase(idNodes_.begin() + (i-1));
       delete node;
     } // purge
 
@@ -494,12 +493,12 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
 
     void setElementId(AttrImplT* attr)
     {
-      idNodes_.insert(attr);
+      idNodes_.push_back(attr);
     } // setElementId
 
     void removeElementId(AttrImplT* attr)
     {
-      typename std::set<AttrImplT*>::iterator n = idNodes_.find(attr);
+      typename std::vector<AttrImplT*>::iterator n = std::find(idNodes_.begin(), idNodes_.end(), attr);
       if(n != idNodes_.end())
         idNodes_.erase(n);
     } // removeElementId
@@ -512,6 +511,16 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
     const stringT& empty_string() const { return empty_; }
 
   private:
+    bool contains(const DOMNode_implT* ancestor, const DOMNode_implT* node) const
+    {
+      for( ; node != 0; node = node->getParentNode())
+        if(node == ancestor)
+          return true;
+      return false;
+    } // contains
+
+    bool isAttached(const DOMNode_implT* node) const { return contains(this, node); }
+
     void checkChildType(DOMNode_implT* child)
     {
       typename DOM::Node_base::Type type = child->getNodeType();
@@ -522,6 +531,19 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
         throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
     } // checkChildType
 
+    void checkElementCount(DOMNode_implT* newChild, DOMNode_implT* existing) const
+    {
+      int count = ((existing != 0) && (existing != newChild)) ? 1 : 0;
+      if(newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE)
+        ++count;
+      if(newChild->getNodeType() == DOM::Node_base::DOCUMENT_FRAGMENT_NODE)
+        for(DOMNode_implT* child = newChild->getFirstChild(); child != 0; child = child->getNextSibling())
+          if(child->getNodeType() == DOM::Node_base::ELEMENT_NODE)
+            ++count;
+      if(count > 1)
+        throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+    } // checkElementCount
+
   private:
     DOMElement_implT* documentElement_;
     DOMDocumentType_implT* documentType_;
@@ -532,7 +554,7 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
     unsigned long refCount_;
 
     mutable std::set<NodeImplT*> orphans_;
-    std::set<AttrImplT*> idNodes_;
+    std::vector<AttrImplT*> idNodes_; // in order of registration
     mutable std::set<stringT> stringPool_;
     const stringT empty_;
 }; // class DocumentImpl
diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index b69ff1a..682f653 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -67,7 +67,7 @@ class NodeImpl : virtual public DOM::Node_impl<stringT, string_adaptorT>
     // Node methods
     virtual const stringT& getNodeName() const = 0;
 
-    virtual const stringT& getNodeValue() const { return ownerDoc_->empty_string(); }
+    virtual const stringT& getNodeValue() const { return noString(); }
     virtual void setNodeValue(const stringT& /*nodeValue*/) { }
 
     virtual DOM::Node_base::Type getNodeType() const = 0;
@@ -98,6 +98,9 @@ class NodeImpl : virtual public DOM::Node_impl<stringT, string_adaptorT>
 
     virtual void normalize()
     {
+      if(readOnly_)
+        return;
+
       DOMNode_implT*child = getFirstChild();
       while(child != 0)
       {
@@ -133,10 +136,10 @@ class NodeImpl : virtual public DOM::Node_impl<stringT, string_adaptorT>
       return false;
     } // isSupported
 
-    virtual const stringT& getNamespaceURI() const { return ownerDoc_->empty_string(); }
-    virtual const stringT& getPrefix() const { return ownerDoc_->empty_string(); }
+    virtual const stringT& getNamespaceURI() const { return noString(); }
+    virtual const stringT& getPrefix() const { return noString(); }
     virtual void setPrefix(const stringT& /*prefix*/) { }
-    virtual const stringT& getLocalName() const { return ownerDoc_->empty_string(); }
+    virtual const stringT& getLocalName() const { return noString(); }
 
     // additional methods - since C++ std::string (and by implication
     // stringT) don't differenciate between a null string and an empty string,
@@ -199,6 +202,9 @@ class NodeImpl : virtual public DOM::Node_impl<stringT, string_adaptorT>
           (dynamic_cast<NodeImplT*>(attrs->item(i)))->setReadOnly(readOnly_);
     } // setReadOnly
 
+    // called when the data of a child changes
+    virtual void childDataChanged() { }
+
     void throwIfReadOnly() const
     {
       if(readOnly_)
@@ -229,6 +235,12 @@ class NodeImpl : virtual public DOM::Node_impl<stringT, string_adaptorT>
 	  throw DOM::DOMException(DOM::DOMException::INVALID_CHARACTER_ERR);
     } // checkChars
 
+    const stringT& noString() const
+    {
+      static const stringT none; // a document type has no document until it is put into one
+      return ownerDoc_ ? ownerDoc_->empty_string() : none;
+    } // noString
+
     NodeImplT* parentNode_;
     DocumentImplT* ownerDoc_;
     NodeImplT* prevSibling_;
@@ -390,6 +402,9 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
     NodeImplT* do_insertBefore(NodeImplT* newChild, NodeImplT* refChild)
     {
       NodeImplT::throwIfReadOnly();
+      if(refChild)
+        findChild(refChild);
+      checkCanAdd(newChild);
 
       if(newChild->getNodeType() == DOM::Node_base::DOCUMENT_FRAGMENT_NODE)
       {
@@ -398,7 +413,9 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
         return newChild;
       } // if ...
 
-      checkCanAdd(newChild);
+      if(newChild == refChild)
+        return newChild;
+
       removeIfRequired(newChild);
       if(refChild)
       {
@@ -432,16 +449,20 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
     {
       NodeImplT::throwIfReadOnly();
 
+      findChild(oldChild);
+      checkCanAdd(newChild);
+
       if(newChild->getNodeType() == DOM::Node_base::DOCUMENT_FRAGMENT_NODE)
       {
-        // not exception safe - but the it's not specified to be :(
-        DOMNode_implT* lc = newChild->getLastChild();
-        replaceChild(newChild->removeChild(lc), oldChild);
-        insertBefore(newChild, lc);
+        NodeImplT* next = oldChild->getNext();
+        removeChild(oldChild);
+        insertBefore(newChild, next);
         return oldChild;
       } // if ...
 
-      checkCanAdd(newChild);
+      if(newChild == oldChild)
+        return oldChild;
+
       removeIfRequired(newChild);
       typename std::deque<NodeImplT*>::iterator result = findChild(oldChild);
       *result = newChild;
@@ -520,17 +541,11 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
       DocumentImplT* childDoc = child->getOwnerDoc();
       if(childDoc == 0)
       {
+        checkChildType(child);
         child->setOwnerDoc(NodeImplT::getOwnerDoc());
         return;
       } //
 
-      if(child->getNodeType() == DOM::Node_base::DOCUMENT_NODE)
-      {
-        if(childDoc != dynamic_cast<DocumentImplT*>(this))
-          throw DOM::DOMException(DOM::DOMException::WRONG_DOCUMENT_ERR);
-        return;
-      } // if(parent is a Document)
-
       if(NodeImplT::getOwnerDocument() && childDoc != NodeImplT::getOwnerDocument())
         throw DOM::DOMException(DOM::DOMException::WRONG_DOCUMENT_ERR);
 
@@ -538,6 +553,13 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
 	if(n == child)
 	  throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
 
+      if(child->getNodeType() == DOM::Node_base::DOCUMENT_FRAGMENT_NODE)
+      {
+        for(NodeImplT* c = child->getFirst(); c != 0; c = c->getNext())
+          checkCanAdd(c);
+        return;
+      } // if ...
+
       checkChildType(child);
     } // checkCanAdd
 
diff --git a/include/DOM/Simple/TextImpl.hpp b/include/DOM/Simple/TextImpl.hpp
index b0f95f7..dc722af 100644
--- a/include/DOM/Simple/TextImpl.hpp
+++ b/include/DOM/Simple/TextImpl.hpp
@@ -36,6 +36,7 @@ class TextImpl : public DOM::Text_impl<stringT, string_adaptorT>,
       CharacterDataT::deleteData(offset, CharacterDataT::getLength() - offset);
 
       TextImpl* splitNode = new TextImpl(CharacterDataT::getOwnerDoc(), second);
+      CharacterDataT::getOwnerDoc()->orphaned(splitNode);
       DOMNode_implT *parent = CharacterDataT::getParentNode();
       if(parent)
         parent->insertBefore(splitNode, CharacterDataT::getNextSibling());
-- 
2.43.0


From f7fc65159afe6d5999e29e2b6645ba02a23efd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:34 +0000
Subject: [PATCH 19/50] fix: failing attribute calls changed the tree or
 leaked; removed attributes kept their owner; setting an existing attribute
 replaced its node; attribute values went stale

---
 include/DOM/Simple/AttrImpl.hpp         |  8 +++
 include/DOM/Simple/AttrMap.hpp          | 66 ++++++++++++++++++++-----
 include/DOM/Simple/AttrNSImpl.hpp       |  2 +
 include/DOM/Simple/ElementNSImpl.hpp    |  3 ++
 include/DOM/Simple/NamedNodeMapImpl.hpp |  9 +++-
 5 files changed, 74 insertions(+), 14 deletions(-)

diff --git a/include/DOM/Simple/AttrImpl.hpp b/include/DOM/Simple/AttrImpl.hpp
index f032206..41a3c9e 100644
--- a/include/DOM/Simple/AttrImpl.hpp
+++ b/include/DOM/Simple/AttrImpl.hpp
@@ -148,6 +148,12 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
     void setOwnerElement(ElementImplT* element)
     {
       ownerElement_ = element;
+      if(!ownerElement_)
+      {
+        if(NodeT::ownerDoc_)
+          NodeT::ownerDoc_->removeElementId(this);
+        return;
+      } // if ...
       if(NodeT::ownerDoc_)
       {
         NodeT::ownerDoc_->adopted(this);  // don't have a parent but are owned
@@ -162,6 +168,8 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
 
     void setSpecified(bool specified) { specified_ = specified; }
 
+    virtual void childDataChanged() { valueCalculated_ = false; }
+
     bool isOrphaned()
     {
       if(!ownerElement_)
diff --git a/include/DOM/Simple/AttrMap.hpp b/include/DOM/Simple/AttrMap.hpp
index 0462926..f59f6b4 100644
--- a/include/DOM/Simple/AttrMap.hpp
+++ b/include/DOM/Simple/AttrMap.hpp
@@ -37,25 +37,23 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
     /////////////////////////////////////////////////////
     virtual DOMNode_implT* setNamedItem(DOMNode_implT* newAttr)
     {
-      AttrImplT* attr = dynamic_cast<AttrImplT*>(newAttr);
+      AttrImplT* attr = checkCanSet(newAttr);
       if(alreadyHere(attr))
         return attr;
-      NamedNodeMapImplT::throwIfReadOnly();
-      checkNotInUse(attr);
       attr->setOwnerElement(ownerElement_);
-      return dynamic_cast<DOMAttr_implT*>(NamedNodeMapImplT::setNamedItem(attr));
+      return disowned(NamedNodeMapImplT::setNamedItem(attr));
     } // setNamedItem
 
     virtual DOMNode_implT* removeNamedItem(const stringT& name)
     {
-      DOMNode_implT* n = NamedNodeMapImplT::removeNamedItem(name);
+      DOMNode_implT* n = disowned(NamedNodeMapImplT::removeNamedItem(name));
       createDefault(name);
       return n;
     } // removeNamedItem
 
     virtual DOMNode_implT* removeNamedItemNS(const stringT& namespaceURI, const stringT& localName)
     {
-      DOMNode_implT* n = NamedNodeMapImplT::removeNamedItemNS(namespaceURI, localName);
+      DOMNode_implT* n = disowned(NamedNodeMapImplT::removeNamedItemNS(namespaceURI, localName));
       createDefault(namespaceURI, localName);
       return n;
     } // removedNamedItemNS   
@@ -70,6 +68,13 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
 
     void setAttribute(const stringT& name, const stringT& value)    
     {
+      NamedNodeMapImplT::throwIfReadOnly();
+      DOMAttr_implT* existing = getAttributeNode(name);
+      if(existing)
+      {
+        existing->setValue(value);
+        return;
+      } // if ...
       AttrImplT* a = new AttrImplT(NamedNodeMapImplT::ownerDoc_, name, value);
       a->setOwnerElement(ownerElement_);
       NamedNodeMapImplT::setNamedItem(a);
@@ -77,7 +82,9 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
 
     void removeAttribute(const stringT& name)    
     {
-      removeNamedItem(name);
+      NamedNodeMapImplT::throwIfReadOnly();
+      if(hasAttribute(name))
+        removeNamedItem(name);
     } // removeAttribute
 
     DOMAttr_implT* getAttributeNode(const stringT& name) const    
@@ -94,7 +101,8 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
     {
       if(oldAttr->getOwnerElement() != ownerElement_)
         throw DOM::DOMException(DOM::DOMException::NOT_FOUND_ERR);
-      removeNamedItem(oldAttr->getNodeName());
+      disowned(NamedNodeMapImplT::removeItem(dynamic_cast<AttrImplT*>(oldAttr)));
+      createDefault(oldAttr->getNodeName());
       return oldAttr;
     } // removeAttributeNode
 
@@ -106,10 +114,20 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
 
     void setAttributeNS(const stringT& namespaceURI, const stringT& qualifiedName, const stringT& value)    
     {
+      NamedNodeMapImplT::throwIfReadOnly();
       AttrNSImplT* a = new AttrNSImplT(NamedNodeMapImplT::ownerDoc_, 
                                        namespaceURI, 
                                        !string_adaptorT::empty(namespaceURI), 
                                        qualifiedName);
+      DOMAttr_implT* existing = getAttributeNodeNS(a->getNamespaceURI(), a->getLocalName());
+      if(existing)
+      {
+        if(existing->hasNamespaceURI())
+          existing->setPrefix(a->getPrefix());
+        existing->setValue(value);
+        delete a;
+        return;
+      } // if ...
       a->setValue(value);
       a->setOwnerElement(ownerElement_);
       NamedNodeMapImplT::setNamedItemNS(a);
@@ -117,7 +135,9 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
 
     void removeAttributeNS(const stringT& namespaceURI, const stringT& localName)    
     {
-      removeNamedItemNS(namespaceURI, localName);
+      NamedNodeMapImplT::throwIfReadOnly();
+      if(hasAttributeNS(namespaceURI, localName))
+        removeNamedItemNS(namespaceURI, localName);
     } // removeAttributeNS
 
     DOMAttr_implT* getAttributeNodeNS(const stringT& namespaceURI, const stringT& localName) const
@@ -132,13 +152,11 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
 
     virtual DOMNode_implT* setNamedItemNS(DOMNode_implT* newAttr)
     {
-      AttrImplT* attr = dynamic_cast<AttrImplT*>(newAttr);
+      AttrImplT* attr = checkCanSet(newAttr);
       if(alreadyHere(attr))
         return attr;
-      NamedNodeMapImplT::throwIfReadOnly();
-      checkNotInUse(attr);
       attr->setOwnerElement(ownerElement_);
-      return dynamic_cast<DOMAttr_implT*>(NamedNodeMapImplT::setNamedItemNS(newAttr));
+      return disowned(NamedNodeMapImplT::setNamedItemNS(newAttr));
     } // setNamedItem
 
     bool hasAttribute(const stringT& name) const    
@@ -215,6 +233,28 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
       return 0;
     } // getDefaultAttrs
 
+    AttrImplT* checkCanSet(DOMNode_implT* node)
+    {
+      AttrImplT* attr = dynamic_cast<AttrImplT*>(node);
+      if(!attr)
+        throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
+      if(!alreadyHere(attr))
+      {
+        NamedNodeMapImplT::throwIfReadOnly();
+        NamedNodeMapImplT::checkOwnerDocument(attr);
+        checkNotInUse(attr);
+      } // if ...
+      return attr;
+    } // checkCanSet
+
+    DOMAttr_implT* disowned(DOMNode_implT* node)
+    {
+      AttrImplT* attr = dynamic_cast<AttrImplT*>(node);
+      if(attr)
+        attr->setOwnerElement(0);
+      return attr;
+    } // disowned
+
     bool alreadyHere(AttrImplT* attr)
     {
       return ((!attr->isOrphaned()) && (attr->getOwnerElement() == ownerElement_));
diff --git a/include/DOM/Simple/AttrNSImpl.hpp b/include/DOM/Simple/AttrNSImpl.hpp
index a885ec8..c29b728 100644
--- a/include/DOM/Simple/AttrNSImpl.hpp
+++ b/include/DOM/Simple/AttrNSImpl.hpp
@@ -77,6 +77,7 @@ class AttrNSImpl : public AttrImpl<stringT, string_adaptorT>
     
     virtual void setPrefix(const stringT& prefix) 
     {
+      AttrImplT::throwIfReadOnly();
       if(hasNamespaceURI_ == false) 
         throw DOM::DOMException(DOM::DOMException::NAMESPACE_ERR);
 
@@ -87,6 +88,7 @@ class AttrNSImpl : public AttrImpl<stringT, string_adaptorT>
         return;
       } // empty prefix
 
+      this->checkName(prefix);
       checkPrefixAndNamespace<stringT, string_adaptorT>(true, prefix, true, *namespaceURI_, DOM::Node_base::ATTRIBUTE_NODE);
 
       stringT newName = prefix;
diff --git a/include/DOM/Simple/ElementNSImpl.hpp b/include/DOM/Simple/ElementNSImpl.hpp
index 9bc88ff..03b7259 100644
--- a/include/DOM/Simple/ElementNSImpl.hpp
+++ b/include/DOM/Simple/ElementNSImpl.hpp
@@ -78,9 +78,11 @@ class ElementNSImpl : public ElementImpl<stringT, string_adaptorT>
       {
         ElementImplT::tagName_ = localName_;
         prefix_ = &ElementImplT::ownerDoc_->empty_string();
+        ElementImplT::ownerDoc_->markChanged();
         return;
       } // empty prefix
 
+      this->checkName(prefix);
       checkPrefixAndNamespace<stringT, string_adaptorT>(true, prefix, true, *namespaceURI_, DOM::Node_base::ELEMENT_NODE);
 
       stringT newTagName = prefix;
@@ -89,6 +91,7 @@ class ElementNSImpl : public ElementImpl<stringT, string_adaptorT>
 
       prefix_ = ElementImplT::ownerDoc_->stringPool(prefix);
       ElementImplT::tagName_ = ElementImplT::ownerDoc_->stringPool(newTagName);
+      ElementImplT::ownerDoc_->markChanged();
     } // setPrefix
 
     virtual const stringT& getLocalName() const 
diff --git a/include/DOM/Simple/NamedNodeMapImpl.hpp b/include/DOM/Simple/NamedNodeMapImpl.hpp
index 6d60dc7..babbaff 100644
--- a/include/DOM/Simple/NamedNodeMapImpl.hpp
+++ b/include/DOM/Simple/NamedNodeMapImpl.hpp
@@ -138,7 +138,8 @@ class NamedNodeMapImpl : public DOM::NamedNodeMap_impl<stringT, string_adaptorT>
     {
       throwIfReadOnly();
       checkOwnerDocument(arg);
-      return setNode(findByNamespaceAndName(arg->getNamespaceURI(), arg->getLocalName()), dynamic_cast<NodeImplT*>(arg));
+      const stringT& localName = string_adaptorT::empty(arg->getLocalName()) ? arg->getNodeName() : arg->getLocalName();
+      return setNode(findByNamespaceAndName(arg->getNamespaceURI(), localName), dynamic_cast<NodeImplT*>(arg));
     } // setNamedItemNS
 
     virtual DOMNode_implT* removeNamedItemNS(const stringT& namespaceURI, const stringT& localName)
@@ -163,6 +164,12 @@ class NamedNodeMapImpl : public DOM::NamedNodeMap_impl<stringT, string_adaptorT>
     } // item
 
   protected:
+    NodeImplT* removeItem(NodeImplT* item)
+    {
+      throwIfReadOnly();
+      return removeNode(std::find(nodes_.begin(), nodes_.end(), item));
+    } // removeItem
+
     void throwIfReadOnly() const
     {
       if(readOnly_)
-- 
2.43.0


From 953b5a3e193dfbd051ed16a8a7b5672280132998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:35 +0000
Subject: [PATCH 20/50] fix: tag lists read past their end after changes and
 missed elements; TreeWalker moved the wrong way; empty node lists could not
 be indexed

---
 include/DOM/NodeList.hpp                      |   7 +-
 include/DOM/Simple/ElementByTagImpl.hpp       |  12 +-
 .../DOM/Traversal/DocumentTraversalImpl.hpp   |   2 +
 include/DOM/Traversal/TreeWalkerImpl.hpp      | 234 ++++++++----------
 4 files changed, 125 insertions(+), 130 deletions(-)

diff --git a/include/DOM/NodeList.hpp b/include/DOM/NodeList.hpp
index 63d078a..62c6224 100644
--- a/include/DOM/NodeList.hpp
+++ b/include/DOM/NodeList.hpp
@@ -37,7 +37,12 @@ class NodeList
       return *this;
     } // operator=
 
-    Node<stringT, string_adaptorT> item(unsigned int index) const { return impl_->item(index); }
+    Node<stringT, string_adaptorT> item(unsigned int index) const 
+    {
+      if(impl_ == 0)
+        return Node<stringT, string_adaptorT>();
+      return impl_->item(index); 
+    } // item
 
     unsigned int getLength() const 
 	{ 
diff --git a/include/DOM/Simple/ElementByTagImpl.hpp b/include/DOM/Simple/ElementByTagImpl.hpp
index 2607619..0305fde 100644
--- a/include/DOM/Simple/ElementByTagImpl.hpp
+++ b/include/DOM/Simple/ElementByTagImpl.hpp
@@ -74,12 +74,12 @@ class ElementByTagList : public DOM::NodeList_impl<stringT, string_adaptorT>
     // DOM::NodeList methods
     virtual DOM::Node_impl<stringT, string_adaptorT>* item(unsigned int index) const
     {
-      if(index >= nodes_.size())
-        return 0;
-
       if(changes_ != ownerDoc_->changes())
         populate();
 
+      if(index >= nodes_.size())
+        return 0;
+
       return nodes_[index];
     } // item
 
@@ -106,7 +106,7 @@ class ElementByTagList : public DOM::NodeList_impl<stringT, string_adaptorT>
     {
       if(useNamespace_)
       {
-        if((node->hasNamespaceURI() && namespaceURI_ == node->getNamespaceURI()) || allNamespaces_)
+        if((namespaceURI_ == node->getNamespaceURI()) || allNamespaces_)
         {
           if((tagName_ == node->getLocalName()) || (allNames_ && node->getNodeType() == DOM::Node<stringT, string_adaptorT>::ELEMENT_NODE))
             nodes_.push_back(node);
@@ -124,6 +124,8 @@ class ElementByTagList : public DOM::NodeList_impl<stringT, string_adaptorT>
       for(DOM::Node_impl<stringT, string_adaptorT>* child = node->getFirstChild(); child != 0; child = child->getNextSibling())
         if(child->getNodeType() == DOM::Node<stringT, string_adaptorT>::ELEMENT_NODE)
           checkNode(child);
+        else if(child->getNodeType() == DOM::Node<stringT, string_adaptorT>::ENTITY_REFERENCE_NODE)
+          checkChildren(child);
 	} // checkChildren
 
     typedef std::deque<DOM::Node_impl<stringT, string_adaptorT>*> NodeListT;
@@ -135,7 +137,7 @@ class ElementByTagList : public DOM::NodeList_impl<stringT, string_adaptorT>
     bool useNamespace_;
     bool allNamespaces_;
     bool allNames_;
-    mutable unsigned int changes_;
+    mutable unsigned long changes_;
     unsigned int refCount_;
 }; // class ElementByTagList
 
diff --git a/include/DOM/Traversal/DocumentTraversalImpl.hpp b/include/DOM/Traversal/DocumentTraversalImpl.hpp
index 4f44b85..a70f8b4 100644
--- a/include/DOM/Traversal/DocumentTraversalImpl.hpp
+++ b/include/DOM/Traversal/DocumentTraversalImpl.hpp
@@ -42,6 +42,8 @@ class DocumentTraversalImpl : public DocumentTraversal_impl<stringT, string_adap
                                  NodeFilterT* filter,
                                  bool entityRefExpansion)
     {
+      if(root == 0)
+        throw DOM::DOMException(DOM::DOMException::NOT_SUPPORTED_ERR);
       return new TreeWalkerImplT(root, whatToShow, filter, entityRefExpansion);
     }
 }; // class DocumentTraversalImpl
diff --git a/include/DOM/Traversal/TreeWalkerImpl.hpp b/include/DOM/Traversal/TreeWalkerImpl.hpp
index 79226a0..b1c0658 100644
--- a/include/DOM/Traversal/TreeWalkerImpl.hpp
+++ b/include/DOM/Traversal/TreeWalkerImpl.hpp
@@ -53,7 +53,12 @@ public:
 
   node_t getCurrentNode() { return currentNode_; }
 
-  void setCurrentNode(const node_t& currentNode) { currentNode_ = currentNode; }
+  void setCurrentNode(const node_t& currentNode) 
+  { 
+    if(currentNode == 0)
+      throw DOM::DOMException(DOM::DOMException::NOT_SUPPORTED_ERR);
+    currentNode_ = currentNode; 
+  }
 
   node_t parentNode()
   {
@@ -82,63 +87,67 @@ public:
   node_t previousSibling()
   {
     node_t n = getPreviousSiblingImpl(currentNode_);
+
     if(n != 0)
       currentNode_ = n;
+
     return n;
   }
 
   node_t nextSibling()
   {
-    node_t n = getPreviousSiblingImpl(currentNode_);
+    node_t n = getNextSiblingImpl(currentNode_);
+
     if(n != 0)
       currentNode_ = n;
+
     return n;
   }
 
   node_t previousNode()
   {
-    node_t n = getPreviousSiblingImpl(currentNode_);
-    if(n != 0)
+    node_t node = currentNode_;
+    while(node != 0 && node != root_)
     {
-      node_t last_child = getLastChildImpl(n);
-      currentNode_ = (last_child != 0) ? last_child : n;
-      return currentNode_;
-    }
-    else
-    {
-      n = getParentNodeImpl(n);
-      if(n != 0)
-        currentNode_ = n;
-      return n;
+      for(node_t sibling = node.getPreviousSibling(); sibling != 0; sibling = node.getPreviousSibling())
+      {
+        node = sibling;
+        filter_result_t accept = acceptNode(node);
+        for(node_t child = lastChildOf(node); filter_t::FILTER_REJECT != accept && child != 0; child = lastChildOf(node))
+        {
+          node = child;
+          accept = acceptNode(node);
+        }
+        if(filter_t::FILTER_ACCEPT == accept)
+          return currentNode_ = node;
+      }
+
+      node = node.getParentNode();
+      if(node != 0 && filter_t::FILTER_ACCEPT == acceptNode(node))
+        return currentNode_ = node;
     }
+    return empty_node();
   }
 
   node_t nextNode()
   {
-    node_t n = getFirstChildImpl(currentNode_);
-    if(n != 0)
+    node_t node = currentNode_;
+    filter_result_t accept = filter_t::FILTER_ACCEPT;
+    while(node != 0)
     {
-      currentNode_ = n;
-      return n;
-    }
-
-    n = getNextSiblingImpl(currentNode_);
-    if(n != 0)
-    {
-      currentNode_ = n;
-      return n;
-    }
-
-    for(node_t parent = getParentNodeImpl(currentNode_); parent != 0; parent = getParentNodeImpl(parent))
-    { 
-      n = getNextSiblingImpl(parent);
-      if(n != 0)
+      node_t next = (filter_t::FILTER_REJECT != accept) ? firstChildOf(node) : empty_node();
+      while(next == 0)
       {
-        currentNode_ = n;
-        return n;
+        if(node == 0 || node == root_)
+          return empty_node();
+        next = node.getNextSibling();
+        node = node.getParentNode();
       }
+      node = next;
+      accept = acceptNode(node);
+      if(filter_t::FILTER_ACCEPT == accept)
+        return currentNode_ = node;
     }
-
     return empty_node();
   }
 
@@ -149,126 +158,103 @@ public:
   }
 
 protected:
-  node_t getParentNodeImpl(node_t& node)
+  node_t getParentNodeImpl(node_t node)
   {
-    if(node == 0 || node == root_)
-      return empty_node();
-
-    node_t new_node = node.getParentNode();
-    if (new_node == 0|| new_node == root_) //todo: check for root here?
-      return empty_node();
-
-    filter_result_t accept = acceptNode(new_node);
-    if (filter_t::FILTER_ACCEPT == accept)
-      return new_node;
-    else
-      return getParentNodeImpl(new_node);
+    while(node != 0 && node != root_)
+    {
+      node = node.getParentNode();
+      if(node != 0 && filter_t::FILTER_ACCEPT == acceptNode(node))
+        return node;
+    }
+    return empty_node();
   }
 
-  node_t getNextSiblingImpl(node_t& node)
+  node_t getNextSiblingImpl(node_t node)
   {
-    if(node == 0 || node == root_)
-      return empty_node();
-
-    node_t new_node = node.getNextSibling();
-    if (new_node == 0)
+    while(node != 0 && node != root_)
     {
-      new_node = node.getParentNode();
-      if (new_node == 0 || new_node == root_)
-        return empty_node();
+      for(node_t sibling = node.getNextSibling(); sibling != 0; sibling = node.getNextSibling())
+      {
+        filter_result_t accept = acceptNode(sibling);
+        if(filter_t::FILTER_ACCEPT == accept)
+          return sibling;
+        node_t child = (filter_t::FILTER_SKIP == accept) ? getFirstChildImpl(sibling) : empty_node();
+        if(child != 0)
+          return child;
+        node = sibling;
+      }
 
-      filter_result_t accept = acceptNode(new_node);
-      if (filter_t::FILTER_SKIP == accept)
-        return getNextSiblingImpl(new_node);
-      else
+      node = node.getParentNode();
+      if(node == 0 || node == root_ || filter_t::FILTER_SKIP != acceptNode(node))
         return empty_node();
     }
+    return empty_node();
+  }
 
-    filter_result_t accept = acceptNode(new_node);
-    if (filter_t::FILTER_ACCEPT == accept)
-      return new_node;
-    else if (filter_t::FILTER_SKIP == accept)
+  node_t getPreviousSiblingImpl(node_t node)
+  {
+    while(node != 0 && node != root_)
     {
-      node_t child = getFirstChildImpl(new_node);
-      if (child == 0 && !new_node.hasChildNodes())
-        return getNextSiblingImpl(new_node);
-      else
-        return child;
+      for(node_t sibling = node.getPreviousSibling(); sibling != 0; sibling = node.getPreviousSibling())
+      {
+        filter_result_t accept = acceptNode(sibling);
+        if(filter_t::FILTER_ACCEPT == accept)
+          return sibling;
+        node_t child = (filter_t::FILTER_SKIP == accept) ? getLastChildImpl(sibling) : empty_node();
+        if(child != 0)
+          return child;
+        node = sibling;
+      }
+
+      node = node.getParentNode();
+      if(node == 0 || node == root_ || filter_t::FILTER_SKIP != acceptNode(node))
+        return empty_node();
     }
-    else
-      return getNextSiblingImpl(new_node);
+    return empty_node();
   }
-  
-  node_t getPreviousSiblingImpl(node_t& node)
-  {
-    if(node == 0 || node == root_)
-      return empty_node();
 
-    node_t new_node = node.getPreviousSibling();
-    if (new_node == 0)
+  node_t getFirstChildImpl(const node_t& node)
+  {
+    for(node_t child = firstChildOf(node); child != 0; child = child.getNextSibling())
     {
-      new_node = node.getParentNode();
-      if (new_node == 0 || new_node == root_)
-        return empty_node();
-     
-      filter_result_t accept = acceptNode(new_node);
-      if (filter_t::FILTER_SKIP == accept)
-        return getPreviousSiblingImpl(new_node);
-      else
-        return empty_node();
+      filter_result_t accept = acceptNode(child);
+      if(filter_t::FILTER_ACCEPT == accept)
+        return child;
+      node_t grandchild = (filter_t::FILTER_SKIP == accept) ? getFirstChildImpl(child) : empty_node();
+      if(grandchild != 0)
+        return grandchild;
     }
+    return empty_node();
+  }
 
-    filter_result_t accept = acceptNode(new_node);
-    if (filter_t::FILTER_ACCEPT == accept)
-      return new_node;
-    else if (filter_t::FILTER_SKIP == accept)
+  node_t getLastChildImpl(const node_t& node)
+  {
+    for(node_t child = lastChildOf(node); child != 0; child = child.getPreviousSibling())
     {
-      node_t child = getLastChildImpl(new_node);
-      if (child == 0 && !new_node.hasChildNodes())
-        return getPreviousSiblingImpl(new_node);
-      else
+      filter_result_t accept = acceptNode(child);
+      if(filter_t::FILTER_ACCEPT == accept)
         return child;
+      node_t grandchild = (filter_t::FILTER_SKIP == accept) ? getLastChildImpl(child) : empty_node();
+      if(grandchild != 0)
+        return grandchild;
     }
-    else
-      return getPreviousSiblingImpl(new_node);
+    return empty_node();
   }
 
-  node_t getFirstChildImpl(node_t& node)
+  node_t firstChildOf(const node_t& node)
   {
     if(!expandEntityRef_ && node.getNodeType() == node_t::ENTITY_REFERENCE_NODE)
       return empty_node();
-
-    node_t new_node = node.getFirstChild();
-    if (new_node == 0)
-      return empty_node();
-
-    filter_result_t accept = acceptNode(new_node);
-    if (filter_t::FILTER_ACCEPT == accept)
-      return new_node;
-    else if (filter_t::FILTER_SKIP == accept && new_node.hasChildNodes())
-      return getFirstChildImpl(new_node);
-    else
-      return getNextSiblingImpl(new_node);
+    return node.getFirstChild();
   }
 
-  node_t getLastChildImpl(node_t& node)
+  node_t lastChildOf(const node_t& node)
   {
     if(!expandEntityRef_ && node.getNodeType() == node_t::ENTITY_REFERENCE_NODE)
       return empty_node();
-
-    node_t new_node = node.getLastChild();
-    if (new_node == 0)
-      return empty_node();
-
-    filter_result_t accept = acceptNode(new_node);
-    if (filter_t::FILTER_ACCEPT == accept)
-      return new_node;
-    else if (filter_t::FILTER_SKIP == accept && new_node.hasChildNodes())
-      return getLastChildImpl(new_node);
-    else
-      return getPreviousSiblingImpl(new_node);
+    return node.getLastChild();
   }
-  
+
   //node-filter will only be checked if what-to-show succeeds
   filter_result_t acceptNode(node_t const& node)
   {
-- 
2.43.0


From 9bb3033729b97d30b038b8f50c22146c47d2bbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:35 +0000
Subject: [PATCH 21/50] fix: entity contents could be changed

---
 include/DOM/SAX2DOM/SAX2DOM.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index 4c7845e..d20a218 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -138,6 +138,8 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
         throw;
       } // catch
 
+      for(typename std::map<stringT, EntityT*>::const_iterator e = declaredEntities_.begin(); e != declaredEntities_.end(); ++e)
+        e->second->setReadOnly(true);
       declaredEntities_.clear();
       documentType_ = 0;
       return (document_ != 0);
-- 
2.43.0


From 7f41fb45d41bc85f79b1f66b72e49d7e71880d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:24 +0000
Subject: [PATCH 22/50] fix: setAttributeNS over an attribute without namespace
 information

---
 include/DOM/Simple/AttrMap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/DOM/Simple/AttrMap.hpp b/include/DOM/Simple/AttrMap.hpp
index f59f6b4..ccc70af 100644
--- a/include/DOM/Simple/AttrMap.hpp
+++ b/include/DOM/Simple/AttrMap.hpp
@@ -120,7 +120,7 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
                                        !string_adaptorT::empty(namespaceURI), 
                                        qualifiedName);
       DOMAttr_implT* existing = getAttributeNodeNS(a->getNamespaceURI(), a->getLocalName());
-      if(existing)
+      if(existing && !string_adaptorT::empty(existing->getLocalName()))
       {
         if(existing->hasNamespaceURI())
           existing->setPrefix(a->getPrefix());
@@ -130,7 +130,7 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
       } // if ...
       a->setValue(value);
       a->setOwnerElement(ownerElement_);
-      NamedNodeMapImplT::setNamedItemNS(a);
+      disowned(NamedNodeMapImplT::setNamedItemNS(a));
     } // setAttributeNS
 
     void removeAttributeNS(const stringT& namespaceURI, const stringT& localName)    
-- 
2.43.0


From 2351501d4d31451599b502a9d99c93b367a85c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:22 +0000
Subject: [PATCH 23/50] fix: event dispatch: listeners could not be removed,
 were called after removal, stopping was not honoured; ancestors that are no
 targets

---
 include/DOM/Simple/EventImpl.hpp         |  8 +--
 include/DOM/Simple/EventTargetImpl.hpp   | 65 +++++++++++++++---------
 include/DOM/Simple/MutationEventImpl.hpp |  2 +-
 3 files changed, 47 insertions(+), 28 deletions(-)

diff --git a/include/DOM/Simple/EventImpl.hpp b/include/DOM/Simple/EventImpl.hpp
index 4b18df4..099f010 100644
--- a/include/DOM/Simple/EventImpl.hpp
+++ b/include/DOM/Simple/EventImpl.hpp
@@ -45,7 +45,7 @@ class EventImpl : virtual public Arabica::DOM::Events::Event_impl<stringT, strin
     typedef Arabica::DOM::Events::EventTarget<stringT, string_adaptorT> EventTargetT;
     typedef EventImpl<stringT, string_adaptorT> EventImplT;
 
-    EventImpl() : timeStamp_(0), stopped_(false), defaultsPrevented_(false), refCount_(0)
+    EventImpl() : phase_(EventT::AT_TARGET), timeStamp_(0), canBubble_(false), canCancel_(false), stopped_(false), defaultsPrevented_(false), refCount_(0)
     {
         //std::cout << std::endl << "born " << this << std::endl;
         timeStamp_ = timeStamp();
@@ -93,13 +93,13 @@ class EventImpl : virtual public Arabica::DOM::Events::Event_impl<stringT, strin
 
     virtual void stopPropagation()
     {
-      if (canCancel_)
-        stopped_ = true;
+      stopped_ = true;
     }
 
     virtual void preventDefault()
     {
-      defaultsPrevented_ = true;
+      if (canCancel_)
+        defaultsPrevented_ = true;
     }
 
     virtual void initEvent(const stringT& eventTypeArg, bool canBubble, bool cancelable)
diff --git a/include/DOM/Simple/EventTargetImpl.hpp b/include/DOM/Simple/EventTargetImpl.hpp
index bec0347..a91fa83 100644
--- a/include/DOM/Simple/EventTargetImpl.hpp
+++ b/include/DOM/Simple/EventTargetImpl.hpp
@@ -79,31 +79,36 @@ class EventTargetImpl : virtual public Arabica::DOM::Events::EventTarget_impl<st
       if (useCapture) {
         std::pair<iterator, iterator> range = eventCapturers_.equal_range(type);
         for (iterator it = range.first; it != range.second; ++it) {
-          if (it->second == &listener)
+          if (it->second == &listener) {
             eventCapturers_.erase(it);
-          return;
+            return;
+          }
         }
       } else {
         std::pair<iterator, iterator> range = eventListeners_.equal_range(type);
         for (iterator it = range.first; it != range.second; ++it) {
-          if (it->second == &listener)
+          if (it->second == &listener) {
             eventListeners_.erase(it);
             return;
+          }
         }
       }
     }
 
     virtual bool dispatchEvent(EventT& event)
     {
-      typedef typename std::multimap<stringT, EventListenerT*>::iterator eventListenerIterator;
-
-      EventImplT* eventImpl = dynamic_cast<EventImplT*>(*event);
+      EventT evt(event); // listeners might let go of theirs
+      EventImplT* eventImpl = dynamic_cast<EventImplT*>(*evt);
       eventImpl->target_ = EventTargetT(this);
+      eventImpl->stopped_ = false;
+      eventImpl->defaultsPrevented_ = false;
 
+      // nodes which aren't event targets are passed over
       std::list<EventTargetT> eventAncestorChain;
       DOMNode_implT* curr = dynamic_cast<DOMNode_implT*>(this);
-      while((curr = curr->getParentNode())) {
-        eventAncestorChain.push_front(EventTargetT(curr));
+      while(curr && (curr = curr->getParentNode())) {
+        if (EventTarget_implT* ancestor = dynamic_cast<EventTarget_implT*>(curr))
+          eventAncestorChain.push_front(EventTargetT(ancestor));
       }
 
       // capturing
@@ -112,23 +117,19 @@ class EventTargetImpl : virtual public Arabica::DOM::Events::EventTarget_impl<st
       while(it != eventAncestorChain.end()) {
         EventTargetImplT* nodeImpl = dynamic_cast<EventTargetImplT*>(it->Impl());
         if (nodeImpl != NULL) {
-          std::pair<eventListenerIterator, eventListenerIterator> range = nodeImpl->eventCapturers_.equal_range(event.getType());
-          for (eventListenerIterator itListener = range.first; itListener != range.second; ++itListener) {
-            itListener->second->handleEvent(event);
-          }
+          nodeImpl->callListeners(nodeImpl->eventCapturers_, evt);
           // stopPropagation was called on the event
           if (eventImpl->stopped_)
-            return false;
+            return !eventImpl->defaultsPrevented_;
         }
         ++it;
       }
 
       // at target
       eventImpl->phase_ = EventT::AT_TARGET;
-      std::pair<eventListenerIterator, eventListenerIterator> range = eventListeners_.equal_range(event.getType());
-      for (eventListenerIterator rit = range.first; rit != range.second; ++rit) {
-        rit->second->handleEvent(event);
-      }
+      callListeners(eventListeners_, evt);
+      if (eventImpl->stopped_)
+        return !eventImpl->defaultsPrevented_;
 
       // bubbling
       if (eventImpl->getBubbles()) {
@@ -137,19 +138,37 @@ class EventTargetImpl : virtual public Arabica::DOM::Events::EventTarget_impl<st
         while(rit != eventAncestorChain.rend()) {
           EventTargetImplT* nodeImpl = dynamic_cast<EventTargetImplT*>(rit->Impl());
           if (nodeImpl != NULL) {
-            std::pair<eventListenerIterator, eventListenerIterator> range1 = nodeImpl->eventListeners_.equal_range(event.getType());
-            for (eventListenerIterator ritListener = range1.first; ritListener != range1.second; ++ritListener) {
-              ritListener->second->handleEvent(event);
-            }
+            nodeImpl->callListeners(nodeImpl->eventListeners_, evt);
             // stopPropagation was called on the event
             if (eventImpl->stopped_)
-              return false;
+              return !eventImpl->defaultsPrevented_;
           }
           ++rit;
         }
       }
 
-      return true;
+      return !eventImpl->defaultsPrevented_;
+    }
+
+  private:
+    typedef std::multimap<stringT, EventListenerT*> ListenerMapT;
+
+    // calls those of the listeners registered now which are still registered
+    // when their turn comes, as listeners can add and remove listeners
+    void callListeners(const ListenerMapT& listeners, EventT& event)
+    {
+      dynamic_cast<EventImplT*>(*event)->currTarget_ = EventTargetT(this);
+
+      const stringT type = event.getType();
+      typedef typename ListenerMapT::const_iterator iterator;
+      std::pair<iterator, iterator> range = listeners.equal_range(type);
+      const std::deque<typename ListenerMapT::value_type> called(range.first, range.second);
+      typedef typename std::deque<typename ListenerMapT::value_type>::const_iterator called_iterator;
+      for (called_iterator c = called.begin(); c != called.end(); ++c) {
+        range = listeners.equal_range(type);
+        if (std::find(range.first, range.second, *c) != range.second)
+          c->second->handleEvent(event);
+      }
     }
 
   protected:
diff --git a/include/DOM/Simple/MutationEventImpl.hpp b/include/DOM/Simple/MutationEventImpl.hpp
index eabe991..59a8481 100644
--- a/include/DOM/Simple/MutationEventImpl.hpp
+++ b/include/DOM/Simple/MutationEventImpl.hpp
@@ -34,7 +34,7 @@ class MutationEventImpl : virtual public Arabica::DOM::Events::MutationEvent_imp
     typedef Arabica::DOM::Events::EventTarget<stringT, string_adaptorT> EventTargetT;
     typedef MutationEventImpl<stringT, string_adaptorT> MutationEventImplT;
 
-    MutationEventImpl()
+    MutationEventImpl() : attrChange_(MutationEventT::MODIFICATION)
     {
         //std::cout << std::endl << "born " << this << std::endl;
     } // MutationEventImpl
-- 
2.43.0


From ff99ed1793775a42bc8b4ddace2d9813c3f7ac20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:20 +0000
Subject: [PATCH 24/50] fix: DOM lifetimes: self assignment of handles, failed
 createDocument, handles on parts of a document type, purgeChild

---
 include/DOM/Node.hpp                     |  2 ++
 include/DOM/Proxy.hpp                    | 16 +++++++---------
 include/DOM/Simple/DOMImplementation.hpp | 20 ++++++++++++++++----
 include/DOM/Simple/DocumentTypeImpl.hpp  | 23 ++++++++++++++++++-----
 include/DOM/Simple/NodeImpl.hpp          |  2 +-
 5 files changed, 44 insertions(+), 19 deletions(-)

diff --git a/include/DOM/Node.hpp b/include/DOM/Node.hpp
index 10d45f5..80ec867 100644
--- a/include/DOM/Node.hpp
+++ b/include/DOM/Node.hpp
@@ -96,6 +96,8 @@ class Node : public Node_base
     void purgeChild(Node& oldChild)
     {
       Node_impl<stringT, string_adaptorT>* child = *oldChild.impl_;
+      // if it isn't ours to purge, oldChild may be all that is keeping it alive
+      const Node childsDocument(child->getOwnerDocument());
       oldChild = 0;
 
       try {
diff --git a/include/DOM/Proxy.hpp b/include/DOM/Proxy.hpp
index 7ed415c..ac453e0 100644
--- a/include/DOM/Proxy.hpp
+++ b/include/DOM/Proxy.hpp
@@ -53,16 +53,14 @@ class Proxy
   private:
     void setImpl(ImplementationT* const impl)
     {
-      if(impl_)
-      {
-        impl_->releaseRef();
-        impl_ = 0;
-      }
+      // take the new before letting go of the old, which might be
+      // all that is keeping the new alive
+      ImplementationT* const old = impl_;
       if(impl)
-      {
-        impl_ = impl;
-        impl_->addRef();
-      } // if(impl)
+        impl->addRef();
+      impl_ = impl;
+      if(old)
+        old->releaseRef();
     } // setImpl
 
     // the thing that actually does the work!
diff --git a/include/DOM/Simple/DOMImplementation.hpp b/include/DOM/Simple/DOMImplementation.hpp
index 39d557c..a386963 100644
--- a/include/DOM/Simple/DOMImplementation.hpp
+++ b/include/DOM/Simple/DOMImplementation.hpp
@@ -67,10 +67,22 @@ class DOMImplementationImpl : public DOM::DOMImplementation_impl<stringT, string
                                                                          const stringT& qualifiedName,
                                                                          DOM::DocumentType_impl<stringT, string_adaptorT>* docType)
     {
-      DocumentImpl<stringT, string_adaptorT>* doc = new DocumentImpl<stringT, string_adaptorT>(namespaceURI, qualifiedName, docType, this);
-
-      if(!string_adaptorT::empty(qualifiedName))
-        doc->appendChild(doc->createElementNS(namespaceURI, qualifiedName));
+      if(docType && (docType->getOwnerDocument() != 0))
+        throw DOM::DOMException(DOM::DOMException::WRONG_DOCUMENT_ERR);
+
+      DocumentImpl<stringT, string_adaptorT>* doc = new DocumentImpl<stringT, string_adaptorT>(namespaceURI, qualifiedName, 0, this);
+      try {
+        if(!string_adaptorT::empty(qualifiedName))
+          doc->appendChild(doc->createElementNS(namespaceURI, qualifiedName));
+
+        if(docType)
+          doc->insertBefore(docType, doc->getFirstChild());
+      } // try
+      catch(...)
+      {
+        delete doc;
+        throw;
+      } // catch
 
       return doc;
     } // createDocument
diff --git a/include/DOM/Simple/DocumentTypeImpl.hpp b/include/DOM/Simple/DocumentTypeImpl.hpp
index 568e2e6..5de05d2 100644
--- a/include/DOM/Simple/DocumentTypeImpl.hpp
+++ b/include/DOM/Simple/DocumentTypeImpl.hpp
@@ -31,8 +31,8 @@ class DocumentTypeImpl : public DOM::DocumentType_impl<stringT, string_adaptorT>
       qualifiedName_(qualifiedName),
       publicId_(publicId),
       systemId_(systemId),
-      entities_(0),
-      notations_(0),
+      entities_(this),
+      notations_(this),
       elements_(0),
       refCount_(0)
     {
@@ -115,7 +115,7 @@ class DocumentTypeImpl : public DOM::DocumentType_impl<stringT, string_adaptorT>
       entities_.setOwnerDoc(ownerDoc);
       notations_.setOwnerDoc(ownerDoc);
       ChildlessNodeImpl<stringT, string_adaptorT>::setOwnerDoc(ownerDoc);
-      while(refCount_--)
+      for(; refCount_ != 0; --refCount_)
         NodeT::ownerDoc_->addRef();
     } // setOwnerDocument
 
@@ -169,8 +169,21 @@ class DocumentTypeImpl : public DOM::DocumentType_impl<stringT, string_adaptorT>
     stringT qualifiedName_;
     stringT publicId_;
     stringT systemId_;
-    NamedNodeMapT entities_;
-    NamedNodeMapT notations_;
+    // whoever refers to one of these refers to the document type
+    class DeclarationMap : public NamedNodeMapT
+    {
+      public:
+        explicit DeclarationMap(DocumentTypeImpl* docType) : NamedNodeMapT(0), docType_(docType) { }
+
+        virtual void addRef() { docType_->addRef(); }
+        virtual void releaseRef() { docType_->releaseRef(); }
+
+      private:
+        DocumentTypeImpl* docType_;
+    }; // class DeclarationMap
+
+    DeclarationMap entities_;
+    DeclarationMap notations_;
     NamedNodeMapT elements_;
     std::vector<stringT> IDs_;
     unsigned int refCount_;
diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index 682f653..053b26b 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -515,7 +515,7 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
 
     void do_purgeChild(NodeImplT* oldChild)
     {
-      oldChild = do_removeChild(oldChild);
+      removeChild(oldChild);
       NodeImplT::ownerDoc_->purge(oldChild);
     } // do_purgeChild
 
-- 
2.43.0


From e9ed613ed4ad57094f4fd6d905131a5b696ffb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:58 +0000
Subject: [PATCH 25/50] fix: character conversion: text, failures and state
 survive any split into reads and writes

base64 keeps its position in the conversion state only (buffers and the
trailing NULs were kept in the facet, or lost); incomplete sequences are
left for the next call rather than read past the end; off-by-one buffer
limits; characters UTF-16 cannot hold are errors rather than cut down;
the adaptors initialise their conversion state, keep what a failing sink
did not take, keep an unconverted tail, report failure, and read on when
input converts to nothing yet.
---
 include/convert/base64codecvt.hpp             |  21 +--
 .../convert/impl/codecvt_specialisations.hpp  |  15 +-
 include/convert/ucs2utf8codecvt.hpp           |   2 -
 include/convert/utf8ucs2codecvt.hpp           |   2 +-
 include/io/convert_adaptor.hpp                | 124 ++++++++-----
 include/io/convertstream.hpp                  |  20 +-
 src/convert/base64codecvt.cpp                 | 175 ++++++------------
 src/convert/impl/iso88591_utf8.cpp            |  20 +-
 src/convert/impl/ucs2_utf16.cpp               |   5 +-
 src/convert/impl/ucs2_utf8.cpp                |   3 +-
 10 files changed, 184 insertions(+), 203 deletions(-)

diff --git a/include/convert/base64codecvt.hpp b/include/convert/base64codecvt.hpp
index 22c8d7c..26e8c99 100644
--- a/include/convert/base64codecvt.hpp
+++ b/include/convert/base64codecvt.hpp
@@ -54,23 +54,10 @@ protected:
   virtual int do_max_length() const throw();
 
 private:
-  // state here is a little tricky - we need the previous char and
-  // the state counter, and in some case we need to "pad" the input
-  // strings.  I use these helper functions to mungle them
-  // together and keep the details neater (or try to anyway)
-  mutable int* state_;
-  mutable const char** from_next_;
-  mutable const char** from_end_;
-  void grabState(std::mbstate_t& state) const;
-  void grabFromNext(const char*& from_next) const { from_next_ = &from_next; }
-  void grabFromEnd(const char*& from_end) const { from_end_ = &from_end; }
-
-  int getState() const;
-  void nextState() const;
-  int getCurrentOutChar() const;
-  void consumeOutChar() const;
-  char getPreviousChar() const;
-  void setPreviousChar(char c) const;
+  // the state counter and the previous char live in the mbstate_t
+  static int getState(const std::mbstate_t& state);
+  static unsigned char getPreviousChar(const std::mbstate_t& state);
+  static void setState(std::mbstate_t& state, int s, unsigned char previous);
 }; // class base64codecvt
 
 } // namespace convert
diff --git a/include/convert/impl/codecvt_specialisations.hpp b/include/convert/impl/codecvt_specialisations.hpp
index bb488e2..358b9cb 100644
--- a/include/convert/impl/codecvt_specialisations.hpp
+++ b/include/convert/impl/codecvt_specialisations.hpp
@@ -66,6 +66,11 @@ public:
     return this->do_length(state, from, end, max);
   } // length
 
+  int max_length() const throw()
+  {
+    return this->do_max_length();
+  } // max_length
+
 protected:
   virtual ~codecvt() { }
 
@@ -77,14 +82,14 @@ protected:
                                       wchar_t* to_limit,
 		                                  wchar_t*& to_next) const
   {
-    int limit = std::max<int>(from_end - from, to_limit - to);
+    int limit = std::min<int>(from_end - from, to_limit - to);
     from_next = from;
     to_next = to;
 
     while(limit--)
-      *to_next++ = static_cast<wchar_t>(*from_next++);
+      *to_next++ = static_cast<wchar_t>(static_cast<unsigned char>(*from_next++));
 
-    return codecvt_base::ok;
+    return (from_next == from_end) ? codecvt_base::ok : codecvt_base::partial;
   } // do_out
 
 
@@ -96,14 +101,14 @@ protected:
                                      char* to_limit,
                                      char*& to_next) const
   {
-    int limit = std::max<int>(from_end - from, to_limit - to);
+    int limit = std::min<int>(from_end - from, to_limit - to);
     from_next = from;
     to_next = to;
 
     while(limit--)
       *to_next++ = static_cast<char>(*from_next++);
 
-    return codecvt_base::ok;
+    return (from_next == from_end) ? codecvt_base::ok : codecvt_base::partial;
   } // do_in
 
   virtual codecvt_base::result do_unshift(std::mbstate_t&,
diff --git a/include/convert/ucs2utf8codecvt.hpp b/include/convert/ucs2utf8codecvt.hpp
index 1fd330c..e2e1758 100644
--- a/include/convert/ucs2utf8codecvt.hpp
+++ b/include/convert/ucs2utf8codecvt.hpp
@@ -25,8 +25,6 @@ namespace convert
 
 class ucs2utf8codecvt : public std::codecvt<char, wchar_t, std::mbstate_t>
 {
-public:
-  static std::locale::id id;
 protected:
   typedef std::codecvt_base::result result;
 
diff --git a/include/convert/utf8ucs2codecvt.hpp b/include/convert/utf8ucs2codecvt.hpp
index c30a969..420860b 100644
--- a/include/convert/utf8ucs2codecvt.hpp
+++ b/include/convert/utf8ucs2codecvt.hpp
@@ -60,7 +60,7 @@ protected:
                         const char* end,
                         size_t max) const throw();
 
-  virtual int do_max_length() const throw() { return 3; }
+  virtual int do_max_length() const throw() { return 4; }
 }; // class utf8ucs2codecvt
 
 } // namespace convert
diff --git a/include/io/convert_adaptor.hpp b/include/io/convert_adaptor.hpp
index f891a96..44a4998 100644
--- a/include/io/convert_adaptor.hpp
+++ b/include/io/convert_adaptor.hpp
@@ -16,6 +16,7 @@
 #include <istream>
 #include <ostream>
 #include <vector>
+#include <deque>
 #include <algorithm>
 #include <cstring>
 
@@ -38,7 +39,7 @@ class convert_bufadaptor : public std::basic_streambuf<charT, traitsT>
     typedef std::basic_streambuf<externalCharT, externalTraitsT> externalStreambufT;
     typedef std::basic_streambuf<charT, traitsT> streambufT;
 
-    explicit convert_bufadaptor(externalStreambufT& externalbuf) : externalbuf_(&externalbuf), inEof_(false) { }
+    explicit convert_bufadaptor(externalStreambufT& externalbuf) : externalbuf_(&externalbuf), outState_(), inState_(), inEof_(false) { }
     virtual ~convert_bufadaptor() { }
   
     void set_buffer(externalStreambufT& externalbuf) { externalbuf_ = &externalbuf; inEof_ = false; }
@@ -55,6 +56,7 @@ class convert_bufadaptor : public std::basic_streambuf<charT, traitsT>
 
     externalStreambufT* externalbuf_;
     std::vector<charT> outBuffer_;
+    std::deque<externalCharT> unsent_;
     state_t outState_;
     std::vector<charT> inBuffer_;
     state_t inState_;
@@ -67,6 +69,7 @@ class convert_bufadaptor : public std::basic_streambuf<charT, traitsT>
 
     static const std::streamsize bufferSize_;
     static const std::streamsize pbSize_;
+    static const std::streamsize maxChars_;
 }; // convert_bufadaptor
 
 template<class charT, class traitsT, class externalCharT, class externalTraitsT>
@@ -74,6 +77,9 @@ const std::streamsize convert_bufadaptor<charT, traitsT, externalCharT, external
 template<class charT, class traitsT, class externalCharT, class externalTraitsT>
 const std::streamsize convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::pbSize_ = 4;
   // why 4? both Josuttis and Langer&Kreft use 4.
+template<class charT, class traitsT, class externalCharT, class externalTraitsT>
+const std::streamsize convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::maxChars_ = 8;
+  // room for whatever a single external character could become
 
 template<class charT, class traitsT, class externalCharT, class externalTraitsT>
 typename convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::int_type convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::overflow(int_type c)
@@ -120,10 +126,10 @@ typename convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::int
 template<class charT, class traitsT, class externalCharT, class externalTraitsT>
 void convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::growOutBuffer()
 {
-  size_t oldsize = outBuffer_.capacity();
+  size_t oldsize = outBuffer_.size();
   size_t newsize = (oldsize ? oldsize*2 : bufferSize_);
   outBuffer_.resize(newsize);
-  streambufT::setp(&outBuffer_[0] + oldsize, &outBuffer_[0] + outBuffer_.capacity());
+  streambufT::setp(&outBuffer_[0] + oldsize, &outBuffer_[0] + outBuffer_.size());
 } // growOutBuffer
 
 template<class charT, class traitsT, class externalCharT, class externalTraitsT>
@@ -137,44 +143,65 @@ void convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::growInB
 template<class charT, class traitsT, class externalCharT, class externalTraitsT>
 bool convert_bufadaptor<charT, traitsT, externalCharT, externalTraitsT>::flushOut()
 {
-  size_t length = streambufT::pptr() - &outBuffer_[0];
-  if(!length)
-    return true;
-
   bool ok(true);
-  const std::codecvt<charT, externalCharT, state_t>& cvt =
-      std::use_facet<std::codecvt<charT, externalCharT, std::mbstate_t> >(this->getloc());
 
-  if(cvt.always_noconv())
-    std::copy(&outBuffer_[0], &outBuffer_[0] + length, std::ostreambuf_iterator<externalCharT>(externalbuf_));
-  else
+  if(!outBuffer_.empty())
   {
-    // we must do code conversion
-    length += cvt.max_length(); // add a little 
-    std::vector<externalCharT> to(length);
-    const charT* from_next = &(outBuffer_[0]);
-    std::codecvt_base::result r;
+    charT* const begin = &outBuffer_[0];
+    const charT* const from_end = streambufT::pptr();
+    const charT* from_next = begin;
 
-    do
+    const std::codecvt<charT, externalCharT, state_t>& cvt =
+        std::use_facet<std::codecvt<charT, externalCharT, std::mbstate_t> >(this->getloc());
+
+    if(cvt.always_noconv())
+    {
+      unsent_.insert(unsent_.end(), from_next, from_end);
+      from_next = from_end;
+    }
+    else if(from_next != from_end)
     {
-      externalCharT* to_next;
-      r = cvt.out(outState_, from_next, streambufT::pptr(), from_next, 
-                  &to[0], &to[0]+length, to_next);
+      // we must do code conversion
+      std::vector<externalCharT> to((from_end - from_next) + cvt.max_length()); // add a little
+      std::codecvt_base::result r;
 
-      if(r == std::codecvt_base::noconv)
+      do
       {
-        std::copy(&outBuffer_[0], &outBuffer_[0] + length, std::ostreambuf_iterator<externalCharT>(externalbuf_));
-        break;
+        const charT* const from = from_next;
+        externalCharT* to_next;
+        r = cvt.out(outState_, from, from_end, from_next,
+                    &to[0], &to[0]+to.size(), to_next);
+
+        if(r == std::codecvt_base::noconv)
+        {
+          unsent_.insert(unsent_.end(), from, from_end);
+          from_next = from_end;
+          break;
+        }
+        unsent_.insert(unsent_.end(), &to[0], to_next);
+
+        if((from_next == from) && (to_next == &to[0]))
+          break; // no further until we have more
       }
-      std::copy(&to[0], to_next, std::ostreambuf_iterator<externalCharT>(externalbuf_));
-    }
-    while(r == std::codecvt_base::partial);
+      while(r == std::codecvt_base::partial);
+
+      ok = (r != std::codecvt_base::error);
+    } // if(cvt.always_noconv())
+
+    // keep hold of anything not yet converted
+    const std::streamsize left = from_end - from_next;
+    std::copy(from_next, from_end, begin);
+    streambufT::setp(begin, begin + outBuffer_.size());
+    streambufT::pbump(static_cast<int>(left));
+  } // if ...
 
-    ok = ok ? (r != std::codecvt_base::error) : false;
-  } // if(cvt.always_noconv())
- 
-  if(ok)
-    streambufT::setp(&outBuffer_[0], &outBuffer_[0] + outBuffer_.capacity());
+  // and anything we can't yet pass on
+  while(!unsent_.empty())
+  {
+    if(externalTraitsT::eq_int_type(externalTraitsT::eof(), externalbuf_->sputc(unsent_.front())))
+      return false;
+    unsent_.pop_front();
+  } // while ...
 
   return ok;
 } // flushOut
@@ -186,18 +213,21 @@ std::streamsize convert_bufadaptor<charT, traitsT, externalCharT, externalTraits
     growInBuffer();
 
   size_t pbCount = std::min<size_t>(streambufT::gptr() - streambufT::eback(), pbSize_);
-  memcpy(&(inBuffer_[0]) + (pbSize_-pbCount)*sizeof(charT),
-         streambufT::gptr() - pbCount*sizeof(charT),
-         pbCount*sizeof(charT));
+  if(pbCount)
+    memmove(&(inBuffer_[0]) + (pbSize_-pbCount),
+            streambufT::gptr() - pbCount,
+            pbCount*sizeof(charT));
 
   const std::codecvt<charT, externalCharT, state_t>& cvt =
       std::use_facet<std::codecvt<charT, externalCharT, std::mbstate_t> >(this->getloc());
 
   externalCharT from[1024];
 
-  std::streamsize res = 0;
-  if(!inEof_)
+  std::streamsize converted = 0;
+  // some of what we read might produce nothing
+  while((converted == 0) && !inEof_)
   {
+    std::streamsize res = 0;
     external_int_type ec = externalbuf_->sgetc();
     while((!externalTraitsT::eq_int_type(externalTraitsT::eof(), ec)) && (res != bufferSize_))
     {
@@ -205,11 +235,9 @@ std::streamsize convert_bufadaptor<charT, traitsT, externalCharT, externalTraits
       ec = externalbuf_->snextc();
     }
     inEof_ = (externalTraitsT::eq_int_type(externalTraitsT::eof(), ec));
-  } // if ...
+    if(res == 0)
+      break;
 
-  std::streamsize converted = 0;
-  if(res > 0)
-  {
     std::codecvt_base::result r;
     const externalCharT* from_next = from;
     do
@@ -226,7 +254,7 @@ std::streamsize convert_bufadaptor<charT, traitsT, externalCharT, externalTraits
 
       if(r == std::codecvt_base::noconv)
       {
-        memcpy(&(inBuffer_[0])+pbSize_, from, res);
+        std::copy(from, from_end, &(inBuffer_[0])+pbSize_);
         converted = res;
       }
       else
@@ -235,15 +263,15 @@ std::streamsize convert_bufadaptor<charT, traitsT, externalCharT, externalTraits
       if(r == std::codecvt_base::partial)
       {
         // haven't done everything
-        if(to_next == to_end)
+        if((to_end - to_next) < maxChars_)
           growInBuffer();  // need more room!
         else
         {
-          int shortfall = (from + res) - from_next;
-          memcpy(from, from_next, shortfall);
+          std::streamsize shortfall = (from + res) - from_next;
+          std::copy(from_next, static_cast<const externalCharT*>(from + res), from);
           res = externalbuf_->sgetn(from + shortfall, static_cast<std::streamsize>(bufferSize_ - shortfall));
           from_next = &from[0];
-          if(res == 0) // oh dear
+          if(res <= 0) // oh dear
             break; // let's bail!
           res += shortfall;
         }
@@ -254,13 +282,13 @@ std::streamsize convert_bufadaptor<charT, traitsT, externalCharT, externalTraits
     if(r == std::codecvt_base::error)
     {
       // couldn't convert - let's bail
-      return 0;
+      inEof_ = true;
     } // if(r == std::codecvt_base::error)
   }
 
   streambufT::setg(&(inBuffer_[0]) + (pbSize_-pbCount), &(inBuffer_[0])+pbSize_, &(inBuffer_[0])+pbSize_+converted);
 
-  return static_cast<int_type>(res);
+  return converted;
 } // readIn
 
 ////////////////////////////////////////////////////
diff --git a/include/io/convertstream.hpp b/include/io/convertstream.hpp
index 8459dba..3a9a907 100644
--- a/include/io/convertstream.hpp
+++ b/include/io/convertstream.hpp
@@ -100,11 +100,11 @@ public:
       std::fill_n(to_, toSize_, 0);
   } // basic_iconvertstream
 
-  explicit basic_iconvertstream(const stringT& str, std::ios_base::openmode mode = std::ios_base::in) : 
+  explicit basic_iconvertstream(const fromStringT& from, std::ios_base::openmode mode = std::ios_base::in) : 
     convertstreambuf_initT(mode | std::ios_base::in),
     std::basic_istream<charT, traitsT>(convertstreambuf_initT::buf())
   {
-    str(str);
+    str(from);
   } // basic_iconvertstream
 
   virtual ~basic_iconvertstream()
@@ -136,10 +136,11 @@ public:
     stringT converted;
     const fromCharT* from_next = str.data();
     typename std::codecvt_base::result r;
-    typename traitsT::state_type state;
+    typename traitsT::state_type state = typename traitsT::state_type();
 
     do
     {
+      const fromCharT* const from = from_next;
       charT* to_next;
       r = cvt.in(state, from_next, str.data() + str.length(), from_next, 
                  to_, to_ + toSize_, to_next);
@@ -149,10 +150,13 @@ public:
         break;
       }
       converted.append(to_, (to_next - to_));
+      if((from_next == from) && (to_next == to_))
+        break; // ends part way through a character
     }
     while(r == std::codecvt_base::partial);
 
-    // naughty! ignore (r == std::codecvt_base::error)
+    if(r == std::codecvt_base::error)
+      this->setstate(std::ios_base::failbit);
     convertstreambuf_initT::buf()->str(converted); 
   } // str
 
@@ -228,10 +232,11 @@ public:
       // we must do code conversion
       const charT* from_next = newstuff.data();
       typename std::codecvt_base::result r;
-      typename traitsT::state_type state;
+      typename traitsT::state_type state = typename traitsT::state_type();
 
       do
       {
+        const charT* const from = from_next;
         toCharT* to_next;
         r = cvt.out(state, from_next, newstuff.data() + newstuff.length(), from_next, 
                     to_, to_ + toSize_, to_next);
@@ -241,9 +246,12 @@ public:
           break;
         }
         out.append(to_, (to_next - to_));
+        if((from_next == from) && (to_next == to_))
+          break; // ends part way through a character
       }
       while(r == std::codecvt_base::partial);
-      // naughty! ignore (r == std::codecvt_base::error)
+      if(r == std::codecvt_base::error)
+        this->setstate(std::ios_base::failbit);
     } // if(cvt.always_noconv())
 
     convertstreambuf_initT::buf()->str(stringT());
diff --git a/src/convert/base64codecvt.cpp b/src/convert/base64codecvt.cpp
index ea31d92..42d64fc 100644
--- a/src/convert/base64codecvt.cpp
+++ b/src/convert/base64codecvt.cpp
@@ -7,7 +7,8 @@
 #include <convert/base64codecvt.hpp>
 
 static const std::string base64_charset("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/");
-static const int NO_MORE = 256;
+// what comes next
+enum { QUAD_START, SECOND, THIRD, FOURTH, PAD_TWO, PAD_ONE };
 
 using namespace Arabica::convert;
 
@@ -20,53 +21,50 @@ std::codecvt_base::result base64codecvt::do_out(std::mbstate_t& state,
                         char*& to_next) const
 {
   // convert to Base64
-  grabState(state);
-  grabFromNext(from_next);
-  grabFromEnd(from_end);
-
-  // base64 encode
   from_next = from;
   to_next = to;
 
-  // generate the quad
-  while((to_next != to_limit) && !((getCurrentOutChar() == NO_MORE) && (getPreviousChar() == 0))) 
+  int s = getState(state);
+
+  // generate the quads, 
+  while((to_next != to_limit) && !((s == QUAD_START) && (from_next == from_end)))
   {
-    char c = getCurrentOutChar();
-    switch(getState())
+    const unsigned char p = getPreviousChar(state);
+    const bool more = (from_next != from_end);
+    const unsigned char c = (more && (s < FOURTH)) ? static_cast<unsigned char>(*from_next++) : 0;
+    
+    switch(s)
     {
-      case 0:
-        *to_next++ = base64_charset[(c>>2) & 63];
-        consumeOutChar();
+      case QUAD_START:
+        *to_next++ = base64_charset[c >> 2];
+        s = SECOND;
+        break;
+      case SECOND:
+        *to_next++ = base64_charset[((p & 3) << 4) + (c >> 4)];
+        s = more ? THIRD : PAD_TWO;
         break;
-      case 1:
-        *to_next++ = base64_charset[((getPreviousChar() & 3) << 4) + ((c >> 4) & 15)];
-        consumeOutChar();
+      case THIRD:
+        *to_next++ = base64_charset[((p & 15) << 2) + (c >> 6)];
+        s = more ? FOURTH : PAD_ONE;
         break;
-      case 2:
-        *to_next++ = base64_charset[((getPreviousChar() & 15) << 2) + ((c >> 6) & 3)];
-        setPreviousChar(0);
+      case FOURTH:
+        *to_next++ = base64_charset[p & 63];
+        s = QUAD_START;
         break;
-      case 3:
-        *to_next++ = base64_charset[(c & 63)];
-        consumeOutChar();
-        setPreviousChar(0);
+      case PAD_TWO:
+        *to_next++ = '=';
+        s = PAD_ONE;
+        break;
+      case PAD_ONE:
+        *to_next++ = '=';
+        s = QUAD_START;
         break;
     } // switch(s) 
 
-    nextState();
-
-    if((getState() == 0) && (getCurrentOutChar() == NO_MORE) && (getPreviousChar() == 0))
-      break;
-  } // while((from_next < from_end) && (to_next != to_end))
-
-  // add padding if needed
-  while((getState() != 0) && (to_next != to_limit))
-  {
-    *to_next++ = '=';
-    nextState();
-  } // while((state != 4) && (to_next != to_limit))
+    setState(state, s, c);
+  } // while ...
 
-  return ((getState() == 0) && (getCurrentOutChar() == NO_MORE) && (getPreviousChar() == 0)) ? std::codecvt_base::ok : std::codecvt_base::partial;
+  return ((s == QUAD_START) && (from_next == from_end)) ? std::codecvt_base::ok : std::codecvt_base::partial;
 } // do_out
 
 std::codecvt_base::result base64codecvt::do_in(std::mbstate_t& state,
@@ -78,39 +76,37 @@ std::codecvt_base::result base64codecvt::do_in(std::mbstate_t& state,
                        char*& to_next) const
 {
   // decode Base64
-  grabState(state);
   from_next = from;
   to_next = to;
 
   while((from_next != from_end) && (to_next != to_limit))
   {
     char b = *from_next++;
+    int s = getState(state);
     size_t i = base64_charset.find(b);
     if(i == std::string::npos)
     {
       if(b == '=')
-        nextState();
+        setState(state, (s + 1) & 3, getPreviousChar(state));
       continue;
     }
-    char c = static_cast<char>(i);
-
-    char p = getPreviousChar();
-    switch(getState())
+    const unsigned char c = static_cast<unsigned char>(i);
+    const unsigned char p = getPreviousChar(state);
+    switch(s)
     {
-      case 0:
+      case QUAD_START:
         break;
-      case 1:
-        *to_next++ = (p << 2) | (c >> 4);
+      case SECOND:
+        *to_next++ = static_cast<char>((p << 2) | (c >> 4));
         break;
-      case 2:
-        *to_next++ = (p << 4) | (c >> 2);
+      case THIRD:
+        *to_next++ = static_cast<char>((p << 4) | (c >> 2));
         break;
-      case 3:
-        *to_next++ = (p << 6) | c;
+      case FOURTH:
+        *to_next++ = static_cast<char>((p << 6) | c);
         break;
-    } // switch(getState())
-    setPreviousChar(c);
-    nextState();
+    } // switch(s)
+    setState(state, (s + 1) & 3, c);
   } // while(to != to_limit)
 
   return (from_next == from_end) ? std::codecvt_base::ok : std::codecvt_base::partial; 
@@ -118,19 +114,12 @@ std::codecvt_base::result base64codecvt::do_in(std::mbstate_t& state,
 
 std::codecvt_base::result base64codecvt::do_unshift(std::mbstate_t& /* state */,
                             char* to,
-                            char* to_limit,
+                            char* /* to_limit */,
                             char*& to_next) const
 {
+  // do_out has already padded
   to_next = to;
-
-  // add padding if needed
-  while((getState() != 0) && (to_next != to_limit))
-  {
-    *to_next++ = '=';
-    nextState();
-  } // while((state != 4) && (to_next != to_limit))
-
-  return (to_next == to_limit) ? std::codecvt_base::ok : std::codecvt_base::partial;
+  return std::codecvt_base::noconv;
 } // do_unshift
 
 int base64codecvt::do_length(const std::mbstate_t&,
@@ -158,63 +147,21 @@ int base64codecvt::do_max_length() const throw()
   return 2;
 } // do_max_length
 
-void base64codecvt::grabState(std::mbstate_t& state) const
-{ 
-  state_ = reinterpret_cast<int*>(&state); 
-  int s = getState();
-  if((s < 0) || (s > 4))
-    *state_ = 0;
-} // grabState
-
-int base64codecvt::getState() const
+int base64codecvt::getState(const std::mbstate_t& state)
 {
-  return (*state_) & 0xff;
+  const int s = reinterpret_cast<const unsigned char*>(&state)[0];
+  return (s <= PAD_ONE) ? s : QUAD_START;
 } // getState
 
-void base64codecvt::nextState() const
+unsigned char base64codecvt::getPreviousChar(const std::mbstate_t& state)
 {
-  int s = getState();
-  s = s + 1;
-  if(s == 4)
-    s = 0;
+  return reinterpret_cast<const unsigned char*>(&state)[1];
+} // getPreviousChar
 
-  *state_ &= 0xffffff00;
-  *state_ |= s;
-} // nextOutState
-
-int base64codecvt::getCurrentOutChar() const
-{
-  if(*from_next_ != *from_end_)
-    return **from_next_;
-
-  return NO_MORE;
-} // getCurrentOutChar
-
-char base64codecvt::getPreviousChar() const
-{
-  return static_cast<char>((*state_ &0xff00) >> 8);
-} // getCurrentOutChar
-
-void base64codecvt::setPreviousChar(char c) const
+void base64codecvt::setState(std::mbstate_t& state, int s, unsigned char previous)
 {
-  int bc(c);
-  bc <<= 8;
-  bc &= 0xff00;
-
-  *state_ &= 0xffff00ff;
-  *state_ |= bc;
-} // setPreviousOutChar
-
-void base64codecvt::consumeOutChar() const
-{
-  if(*from_next_ != *from_end_)
-  {
-    setPreviousChar(**from_next_);
-    *from_next_ = *from_next_ + 1;
-  } 
-  else
-    setPreviousChar(0);
-}  // consumeOutChar
+  reinterpret_cast<unsigned char*>(&state)[0] = static_cast<unsigned char>(s);
+  reinterpret_cast<unsigned char*>(&state)[1] = previous;
+} // setState
 
 // end of file
-
diff --git a/src/convert/impl/iso88591_utf8.cpp b/src/convert/impl/iso88591_utf8.cpp
index 44277d6..fead6d6 100644
--- a/src/convert/impl/iso88591_utf8.cpp
+++ b/src/convert/impl/iso88591_utf8.cpp
@@ -40,7 +40,7 @@ std::codecvt_base::result Arabica::convert::impl::iso88591_2_utf8(
         continue;
 
       // is there enough room in outbuffer?
-      if(to_next + (t - tab) + 1 >= to_limit)
+      if(to_next + (t - tab) + 1 > to_limit)
         return std::codecvt_base::partial;
 
       int c = t->shift;
@@ -68,17 +68,21 @@ std::codecvt_base::result Arabica::convert::impl::utf8_2_iso88591(
 	while((from_next < from_end) && (to_next < to_limit))
 	{
     char start = *from_next;
+    const Tab *t = tab;
+    while(t->char_mask && ((start & t->char_mask) != t->char_value))
+      ++t;
+
+    if((from_next + (t - tab)) >= from_end)
+      break; // rest of the character is still to come
+
     wchar_t next = static_cast<unsigned char>(*from_next);
-    for(const Tab *t = tab; t->char_mask; t++)
+    for(const Tab *n = tab; n != t; ++n)
     {
-      if((start & t->char_mask) == t->char_value)
-      {
-        next &= t->wide_mask;
-        break;
-      }
       from_next++;
       next = (next << 6) | ((*from_next ^ 0x80) & 0xff);
-    } // for(Tab *t = tab;  t->char_mask; t++)
+    } // for ...
+    if(t->char_mask)
+      next &= t->wide_mask;
 
     if(next <= 0xFF)
       *to_next = static_cast<char>(next);
diff --git a/src/convert/impl/ucs2_utf16.cpp b/src/convert/impl/ucs2_utf16.cpp
index ca1e050..fcef5cc 100644
--- a/src/convert/impl/ucs2_utf16.cpp
+++ b/src/convert/impl/ucs2_utf16.cpp
@@ -30,10 +30,13 @@ std::codecvt_base::result Arabica::convert::impl::ucs2_2_utf16(bool be,
 
   while(from_next < from_end)
   {
-    if(to_next + 2 >= to_limit)
+    if(to_next + 2 > to_limit)
       return std::codecvt_base::partial;
 
     wchar_t ch = *from_next;
+    if(static_cast<unsigned long>(ch) > 0xFFFF)
+      return std::codecvt_base::error;
+
     unsigned char lb = static_cast<unsigned char>(ch & 0xFF);
     unsigned char hb = static_cast<unsigned char>((ch >> 8) & 0xFF);
  
diff --git a/src/convert/impl/ucs2_utf8.cpp b/src/convert/impl/ucs2_utf8.cpp
index 4b9f5d8..837c4f0 100644
--- a/src/convert/impl/ucs2_utf8.cpp
+++ b/src/convert/impl/ucs2_utf8.cpp
@@ -23,6 +23,7 @@ namespace {
     { (unsigned char)(0x80),  (unsigned char)(0x00),   0*6,    0x7F,   },   // 1 byte sequence
     { (unsigned char)(0xE0),  (unsigned char)(0xC0),   1*6,    0x7FF,  },   // 2 byte sequence
     { (unsigned char)(0xF0),  (unsigned char)(0xE0),   2*6,    0xFFFF, },   // 3 byte sequence
+    { (unsigned char)(0xF8),  (unsigned char)(0xF0),   3*6,    0x1FFFFF, }, // 4 byte sequence
     { 0,                      0,                       0,      0,      }    // end of table
   };
 } // namespace 
@@ -45,7 +46,7 @@ std::codecvt_base::result Arabica::convert::impl::ucs2_2_utf8(
         continue;
 
       // is there enough room in outbuffer?
-      if(to_next + (t - tab) + 1 >= to_limit)
+      if(to_next + (t - tab) + 1 > to_limit)
         return std::codecvt_base::partial;
 
       int c = t->shift;
-- 
2.43.0


From 74597cf4a93672039dccddf556521c4f7ab4e7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:07 +0000
Subject: [PATCH 26/50] fix: socket streams and http resolution lose no data
 and always end

Short and interrupted sends, reads interrupted by a signal, resets reported
as the end of data, SIGPIPE, output unsent at close, output left over for
the next connection; header lines longer than 1023 characters or a response
that ends within its headers looped for ever, a failed connection leaked
and fell back to a local file of the same path; port ignored in a URI
without a path.
---
 include/io/socket_stream.hpp            | 85 +++++++++++++++++++------
 src/SAX/helpers/InputSourceResolver.cpp | 27 ++++----
 src/io/uri.cpp                          |  7 --
 3 files changed, 81 insertions(+), 38 deletions(-)

diff --git a/include/io/socket_stream.hpp b/include/io/socket_stream.hpp
index 8cbb8e9..3db88c2 100644
--- a/include/io/socket_stream.hpp
+++ b/include/io/socket_stream.hpp
@@ -20,10 +20,12 @@
 #include <netinet/in.h>
 #include <arpa/inet.h>
 #include <unistd.h>
+#include <cerrno>
 #else
 #include <winsock.h>
 #endif
 #include <streambuf>
+#include <istream>
 #include <algorithm>
 #include <vector>
 #include <cstdlib>
@@ -94,10 +96,12 @@ class basic_socketbuf : public std::basic_streambuf<charT, traitsT>
     bool writeSocket();
     void growInBuffer();
     int readSocket();
+    static bool interrupted();
     int closeSocket(socket_type sock) const;
 
     static const size_t bufferSize_;
     static const size_t pbSize_;
+    static const int sendFlags_;
 
 #ifndef USE_WINSOCK
     static const int INVALID_SOCKET;
@@ -110,6 +114,13 @@ const size_t basic_socketbuf<charT, traitsT>::bufferSize_ = 1024;
 template<class charT, class traitsT>
 const size_t basic_socketbuf<charT, traitsT>::pbSize_ = 4;
   // why 4? both Josuttis and Langer&Kreft use 4.
+template<class charT, class traitsT>
+#ifdef MSG_NOSIGNAL
+const int basic_socketbuf<charT, traitsT>::sendFlags_ = MSG_NOSIGNAL;
+  // a peer that's gone away is an error, not the end of the process
+#else
+const int basic_socketbuf<charT, traitsT>::sendFlags_ = 0;
+#endif
 #ifndef USE_WINSOCK
 template<class charT, class traitsT>
 const int basic_socketbuf<charT, traitsT>::INVALID_SOCKET = -1;
@@ -188,6 +199,9 @@ basic_socketbuf<charT, traitsT>* basic_socketbuf<charT, traitsT>::open(const cha
 
   // hurray, we've connected so initialise everything else we need to
   sock_ = tmpsock;
+  outBuffer_.clear();
+  setp(0, 0);
+  setg(0, 0, 0);
 
   return this;
 } // open
@@ -198,13 +212,17 @@ basic_socketbuf<charT, traitsT>* basic_socketbuf<charT, traitsT>::close()
   if(!is_open())
     return 0;
 
+  // the socket is gone, whether or not everything was sent
+  bool ok = writeSocket();
   if(closeSocket(sock_) == SOCKET_ERROR)
-    return 0;
+    ok = false;
 
   sock_ = INVALID_SOCKET;
-  setg(0,0,0);
+  outBuffer_.clear();
+  setp(0, 0);
+  setg(0, 0, 0);
 
-  return this;
+  return ok ? this : 0;
 } // close;
 
 template<class charT, class traitsT>
@@ -235,8 +253,7 @@ typename basic_socketbuf<charT, traitsT>::int_type basic_socketbuf<charT, traits
 	if(gptr() != 0 && gptr() < egptr())
 	  return (traitsT::to_int_type(*gptr()));
 
-  size_t length = readSocket();
-  if(!length)
+  if(readSocket() <= 0)
     return traitsT::eof();
     
   return traitsT::to_int_type(*gptr());
@@ -257,11 +274,11 @@ typename basic_socketbuf<charT, traitsT>::int_type basic_socketbuf<charT, traits
 template<class charT, class traitsT>
 void basic_socketbuf<charT, traitsT>::growOutBuffer()
 {
-  size_t oldsize = outBuffer_.capacity();
+  size_t oldsize = outBuffer_.size();
   size_t newsize = (oldsize ? oldsize*2 : bufferSize_);
   outBuffer_.resize(newsize);
   
-  char* out_begin = &(outBuffer_[0]);
+  charT* out_begin = &(outBuffer_[0]);
   setp(out_begin + oldsize, out_begin + newsize);
 } // growOutBuffer
 
@@ -269,15 +286,28 @@ template<class charT, class traitsT>
 bool basic_socketbuf<charT, traitsT>::writeSocket()
 {
   // write to the socket
-  charT* from_next = &(outBuffer_[0]);
-  size_t length = pptr() - from_next;
-  if(!length)
+  if(outBuffer_.empty())
     return true;
 
-  bool ok = (send(sock_, from_next, static_cast<int>(length), 0) != SOCKET_ERROR);
+  charT* const begin = &(outBuffer_[0]);
+  const charT* from_next = begin;
+  const charT* const from_end = pptr();
 
-  if(ok)
-    setp(from_next, from_next + outBuffer_.capacity());
+  bool ok = true;
+  while(ok && (from_next != from_end))
+  {
+    const int sent = static_cast<int>(send(sock_, from_next, static_cast<int>(from_end - from_next), sendFlags_));
+    if(sent > 0)
+      from_next += sent;
+    else
+      ok = (sent == SOCKET_ERROR) && interrupted();
+  } // while ...
+
+  // keep hold of whatever didn't go
+  const size_t left = from_end - from_next;
+  std::copy(from_next, from_end, begin);
+  setp(begin, begin + outBuffer_.size());
+  this->pbump(static_cast<int>(left));
 
   return ok;
 } // writeSocket
@@ -298,15 +328,22 @@ int basic_socketbuf<charT, traitsT>::readSocket()
 
   size_t pbCount = std::min<size_t>(gptr() - eback(), pbSize_);
 
-  memcpy(&(inBuffer_[0]) + (pbSize_-pbCount)*sizeof(charT), 
-         gptr() - pbCount*sizeof(charT),
-         pbCount*sizeof(charT));
+  if(pbCount)
+    memmove(&(inBuffer_[0]) + (pbSize_-pbCount), 
+            gptr() - pbCount,
+            pbCount*sizeof(charT));
 
-  int res = recv(sock_, &(inBuffer_[0]) + pbSize_, static_cast<int>(inBuffer_.capacity() - pbSize_), 0);
+  int res;
+  do
+    res = static_cast<int>(recv(sock_, &(inBuffer_[0]) + pbSize_, static_cast<int>(inBuffer_.capacity() - pbSize_), 0));
+  while((res == SOCKET_ERROR) && interrupted());
   if(res == 0)
   {
     // server closed the socket
+    const bool flushed = writeSocket();
     close();
+    if(!flushed)
+      throw std::ios_base::failure("socket write failed");
     return 0;
   } // if(res == 0)
   else if(res == SOCKET_ERROR)
@@ -320,9 +357,9 @@ int basic_socketbuf<charT, traitsT>::readSocket()
     } // if(GetLastError() != WSAEMSGSIZE)
 #endif 
 
-    // unclever error handling
+    // not the end of the data, so must not look like it
     close();
-    return 0;
+    throw std::ios_base::failure("socket read failed");
   } // if(res == SOCKET_ERROR)
 
   charT* to_begin = &(inBuffer_[0]) + pbSize_;
@@ -331,6 +368,16 @@ int basic_socketbuf<charT, traitsT>::readSocket()
   return res;
 } // readSocket
 
+template <class charT, class traitsT>
+bool basic_socketbuf<charT, traitsT>::interrupted()
+{
+#ifdef USE_WINSOCK
+  return false;
+#else
+  return errno == EINTR;
+#endif
+} // interrupted
+
 template <class charT, class traitsT>
 int basic_socketbuf<charT, traitsT>::closeSocket(socket_type sock) const
 {
diff --git a/src/SAX/helpers/InputSourceResolver.cpp b/src/SAX/helpers/InputSourceResolver.cpp
index ce6266a..41b5024 100644
--- a/src/SAX/helpers/InputSourceResolver.cpp
+++ b/src/SAX/helpers/InputSourceResolver.cpp
@@ -12,6 +12,8 @@
 #include <io/socket_stream.hpp>
 #include <io/uri.hpp>
 #include <cmath>
+#include <memory>
+#include <string>
 
 using namespace Arabica::SAX;
 
@@ -31,10 +33,9 @@ void InputSourceResolver::open(const std::string& /* publicId */,
     {
       URIResolver res = findResolver(url.scheme());
       if(res)
-        byteStream_ = res(systemId);
-      if(byteStream_)
       {
-        deleteStream_ = true;
+        byteStream_ = res(systemId);
+        deleteStream_ = (byteStream_ != 0);
         return;
       } // if ...
     } // if ...
@@ -123,22 +124,24 @@ namespace
 
     Arabica::io::URI url(httpURI);
 
-    Arabica::io::socketstream* ifs = new Arabica::io::socketstream(url.host().c_str(), std::atoi(url.port().c_str()));
+    std::unique_ptr<Arabica::io::socketstream> ifs(new Arabica::io::socketstream(url.host().c_str(), std::atoi(url.port().c_str())));
     if(!ifs->is_open())
       return 0;
-    *ifs << "GET " << url.path() << " HTTP/1.0" << std::endl;
-    *ifs << "Host: " << url.host() << std::endl;
-    *ifs << "Connection: close" << std::endl;
-    *ifs << std::endl;
+    *ifs << "GET " << (url.path().empty() ? "/" : url.path()) << " HTTP/1.0\r\n"
+         << "Host: " << url.host() << "\r\n"
+         << "Connection: close\r\n"
+         << "\r\n" << std::flush;
 
-    char buffer[1024];
+    // skip the headers
+    std::string line;
     do
     {
-      ifs->getline(buffer, sizeof(buffer));
+      if(!std::getline(*ifs, line) || ifs->eof())
+        return 0; // gone before we got to the content
     }
-    while(buffer[0] != '\r');
+    while(!line.empty() && (line != "\r"));
 
-    return ifs;
+    return ifs.release();
   } // httpResolver
 
   static bool httpReg = InputSourceResolver::registerResolver("http", httpResolver);
diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index 24e3cf6..e4684dc 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -130,13 +130,6 @@ std::string::const_iterator URI::parseAuthority(const std::string::const_iterato
 						const std::string::const_iterator& ue)
 {
   std::string::const_iterator slash = std::find(u, ue, FORWARD_SLASH);
-  if(slash == ue)
-  {
-    // ah, this is easy
-    host_.append(u, ue);
-    return ue;
-  } // if(slash == we)
-
   std::string::const_iterator colon = std::find(u, slash, ':');
   host_.append(u, colon);
 
-- 
2.43.0


From 2af1079d21baacbc30e75d8bacfe6e08988e9283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:16 +0000
Subject: [PATCH 27/50] fix: Taggle forgets the document type between parses,
 reads streams that cannot put back, and releases deep element stacks without
 recursion

---
 include/Taggle/impl/Element.hpp          | 12 ++++++--
 include/Taggle/impl/Parser.hpp           |  1 +
 include/Taggle/impl/html/HTMLScanner.hpp | 39 +++++++++++++++++++-----
 3 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/include/Taggle/impl/Element.hpp b/include/Taggle/impl/Element.hpp
index 7b28ec6..1f03d0f 100755
--- a/include/Taggle/impl/Element.hpp
+++ b/include/Taggle/impl/Element.hpp
@@ -253,9 +253,15 @@ public:
 
   void remove_ref() 
   {
-    --refCount_;
-    if(refCount_ == 0)
-      delete this;
+    // stacks of elements can be deep, so don't recurse down them
+    Element_impl* e = this;
+    while((e != 0) && (--e->refCount_ == 0))
+    {
+      Element_impl* next = e->next_.impl_;
+      e->next_.impl_ = 0;
+      delete e;
+      e = next;
+    } // while ...
   } // remove_ref
 
 private:
diff --git a/include/Taggle/impl/Parser.hpp b/include/Taggle/impl/Parser.hpp
index 41d4b0e..1b62120 100644
--- a/include/Taggle/impl/Parser.hpp
+++ b/include/Taggle/impl/Parser.hpp
@@ -513,6 +513,7 @@ private:
     saved_ = Element::Null;
     entity_ = 0;
     virginStack = true;
+    doctypeIsPresent_ = false;
     doctypeName_ = doctypePublicId_ = doctypeSystemId_ = "";
   } // setup
 
diff --git a/include/Taggle/impl/html/HTMLScanner.hpp b/include/Taggle/impl/html/HTMLScanner.hpp
index 1001b2d..889cf64 100644
--- a/include/Taggle/impl/html/HTMLScanner.hpp
+++ b/include/Taggle/impl/html/HTMLScanner.hpp
@@ -109,6 +109,8 @@ private:
   int state_;          // Current state
   int nextState_;        // Next state
   std::string outputBuffer_;  // Output buffer
+  bool unread_;          // Have a character to read again
+  int unreadChar_;       // and here it is
 
   // Compensate for bug in PushbackReader that allows
   // pushing back EOF.
@@ -126,7 +128,9 @@ public:
       currentColumn_(0),
       state_(0),
       nextState_(0),
-      outputBuffer_()
+      outputBuffer_(),
+      unread_(false),
+      unreadChar_(0)
   {
     outputBuffer_.reserve(200);
   } // HTMLScanner
@@ -174,6 +178,7 @@ public:
   virtual void scan(std::istream& r, ScanHandler& h)
   {
     state_ = S_PCDATA;
+    unread_ = false;
 /*    PushbackReader r;
     if (r0 instanceof PushbackReader) {
       r = (PushbackReader)r0;
@@ -190,7 +195,7 @@ public:
 
     while (state_ != S_DONE) 
     {
-      int ch = r.get();
+      int ch = read(r);
 
       // Process control characters
       //if (ch >= 0x80 && ch <= 0x9F) 
@@ -198,10 +203,10 @@ public:
 
       if (ch == '\r') 
       {
-        ch = r.get();    // expect LF next
+        ch = read(r);    // expect LF next
         if (ch != '\n') 
         {
-          r.unget();
+          unread(ch);
           ch = '\n';
         }
       }
@@ -368,13 +373,13 @@ public:
               }
               if (ch != ';') 
               {
-                r.unget();
+                unread(ch);
                 currentColumn_--;
               }
             }
             else 
             {
-              r.unget();
+              unread(ch);
               currentColumn_--;
             }
             nextState_ = S_PCDATA;
@@ -464,7 +469,7 @@ public:
           h.stage(outputBuffer_);
           break;
         case A_UNGET:
-          r.unget();
+          unread(ch);
           currentColumn_--;
           break;
         case A_UNSAVE_PCDATA:
@@ -494,6 +499,26 @@ public:
   } // startCDATA
 
 private:
+  /**
+  * Read the next character.  Not every stream can put characters back,
+  * so we do that here.
+  */
+  int read(std::istream& r)
+  {
+    if(unread_)
+    {
+      unread_ = false;
+      return unreadChar_;
+    }
+    return r.get();
+  } // read
+
+  void unread(int ch)
+  {
+    unread_ = true;
+    unreadChar_ = ch;
+  } // unread
+
   /**
   * Mark the current scan position as a "point of interest" - start of a tag,
   * cdata, processing instruction etc.
-- 
2.43.0


From 039bfe810013a18f36a956715f688c17119dcf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:19 +0000
Subject: [PATCH 28/50] fix: a malformed or unreadable stylesheet fails to
 compile, and nested imports do not read freed memory

---
 .../XSLT/impl/handler/xslt_include_handler.hpp    |  5 +++--
 include/XSLT/impl/xslt_stylesheet_compiler.hpp    | 15 ++++++++++++++-
 include/XSLT/impl/xslt_stylesheet_parser.hpp      |  5 +++++
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/XSLT/impl/handler/xslt_include_handler.hpp b/include/XSLT/impl/handler/xslt_include_handler.hpp
index 02f5a04..9908ca1 100644
--- a/include/XSLT/impl/handler/xslt_include_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_include_handler.hpp
@@ -141,13 +141,14 @@ private:
     } // if ...
   } // check_for_loops
 
-  void import_stylesheet(const ImportHref& import)
+  // by value, because the stacks these come from grow while the stylesheet is read
+  void import_stylesheet(const ImportHref import)
   {
     current_includes_ = import.includes;
     include_stylesheet(import.href, import.precedence);
   } // import_stylesheet
 
-  void include_stylesheet(const string_type& href, const Precedence& precedence)
+  void include_stylesheet(const string_type href, const Precedence precedence)
   {
     check_for_loops(href);
     current_includes_.push_back(href);
diff --git a/include/XSLT/impl/xslt_stylesheet_compiler.hpp b/include/XSLT/impl/xslt_stylesheet_compiler.hpp
index 9077f04..1212f15 100644
--- a/include/XSLT/impl/xslt_stylesheet_compiler.hpp
+++ b/include/XSLT/impl/xslt_stylesheet_compiler.hpp
@@ -3,6 +3,8 @@
 
 #include <XML/XMLCharacterClasses.hpp>
 #include <XPath/impl/xpath_namespace_context.hpp>
+#include <SAX/helpers/CatchErrorHandler.hpp>
+#include <stdexcept>
 #include <memory>
 
 #include "xslt_stylesheet_parser.hpp"
@@ -238,12 +240,15 @@ public:
 
     StylesheetHandler<string_type, string_adaptor> stylesheetHandler(context);
     parser.setContentHandler(stylesheetHandler);
-    //parser.setErrorHandler(*this);
+    CompilationErrors errors;
+    parser.setErrorHandler(errors);
   
     //if(entityResolver_)
     //  parser.setEntityResolver(*entityResolver_);
     try {
       parser.parse(source);
+      if(errors.errorsReported())
+        throw std::runtime_error(errors.errors());
     } // try
     catch(std::exception& ex)
     {
@@ -261,6 +266,14 @@ public:
   } // error
 
 private:
+  class CompilationErrors : public SAX::CatchErrorHandler<string_type, string_adaptor>
+  {
+  public:
+    typedef typename SAX::CatchErrorHandler<string_type, string_adaptor>::SAXParseExceptionT SAXParseExceptionT;
+
+    virtual void warning(const SAXParseExceptionT& /* exception */) { }
+  }; // class CompilationErrors
+
   std::string error_;
 }; // class StylesheetCompiler
 
diff --git a/include/XSLT/impl/xslt_stylesheet_parser.hpp b/include/XSLT/impl/xslt_stylesheet_parser.hpp
index 4307045..09eb713 100644
--- a/include/XSLT/impl/xslt_stylesheet_parser.hpp
+++ b/include/XSLT/impl/xslt_stylesheet_parser.hpp
@@ -30,6 +30,11 @@ public:
     namespace_tracker_.setContentHandler(handler);
   } // setContentHandler
 
+  void setErrorHandler(SAX::ErrorHandler<string_type, string_adaptor>& handler)
+  {
+    namespace_tracker_.setErrorHandler(handler);
+  } // setErrorHandler
+
   ContentHandlerT& contentHandler() 
   {
     return text_coalescer_;
-- 
2.43.0


From 3a1d88bba9622c5cc0318b6de919cacf51bb2714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:19 +0000
Subject: [PATCH 29/50] fix: executions of a stylesheet leave nothing behind in
 it, its sink or its keys

---
 .../XSLT/impl/xslt_compiled_stylesheet.hpp    | 51 +++++++++++++++++++
 include/XSLT/impl/xslt_execution_context.hpp  |  3 ++
 include/XSLT/impl/xslt_key.hpp                | 10 ++++
 include/XSLT/impl/xslt_message.hpp            | 13 ++++-
 include/XSLT/impl/xslt_output.hpp             | 10 ++++
 include/XSLT/impl/xslt_sink.hpp               |  8 +--
 include/XSLT/impl/xslt_variable_stack.hpp     |  8 +++
 7 files changed, 98 insertions(+), 5 deletions(-)

diff --git a/include/XSLT/impl/xslt_compiled_stylesheet.hpp b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
index 86f1763..0c49c71 100644
--- a/include/XSLT/impl/xslt_compiled_stylesheet.hpp
+++ b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
@@ -103,6 +103,9 @@ public:
     ns.push_back(initialNode);
 
     ExecutionContext<string_type, string_adaptor> context(*this, output_.get(), *error_output_);
+    ExecutionFrame frame(keys_, context);
+    LastFrame<string_type, string_adaptor> last(context, 1);
+    context.setPosition(initialNode, 1);
 
     // set up variables and so forth
     for(ParamListIterator pi = params_.begin(), pe = params_.end(); pi != pe; ++pi)
@@ -238,6 +241,7 @@ private:
                         const Precedence& generation) const
   {
     StackFrame<string_type, string_adaptor> frame(context);
+    TemplateRuleFrame rule(*this);
 
     std::vector<Precedence> lower_precedences;
     for(TemplateStackIterator ts = templates_.begin(), tse = templates_.end(); ts != tse; ++ts)
@@ -336,6 +340,53 @@ private:
     Template<string_type, string_adaptor>* template_;
   }; // struct MatchTemplate
 
+  class ExecutionFrame
+  {
+  public:
+    ExecutionFrame(const DeclaredKeys<string_type, string_adaptor>& keys, ExecutionContext<string_type, string_adaptor>& context) :
+      keys_(keys),
+      context_(context)
+    {
+      keys_.forget();
+    } // ExecutionFrame
+    ~ExecutionFrame()
+    {
+      context_.releaseTopLevel();
+      keys_.forget();
+    } // ~ExecutionFrame
+
+  private:
+    const DeclaredKeys<string_type, string_adaptor>& keys_;
+    ExecutionContext<string_type, string_adaptor>& context_;
+
+    ExecutionFrame(const ExecutionFrame&);
+    ExecutionFrame& operator=(const ExecutionFrame&);
+  }; // class ExecutionFrame
+
+  class TemplateRuleFrame
+  {
+  public:
+    TemplateRuleFrame(const CompiledStylesheet& stylesheet) :
+      stylesheet_(stylesheet),
+      mode_(stylesheet.current_mode_),
+      generation_(stylesheet.current_generation_)
+    {
+    } // TemplateRuleFrame
+    ~TemplateRuleFrame()
+    {
+      stylesheet_.current_mode_ = mode_;
+      stylesheet_.current_generation_ = generation_;
+    } // ~TemplateRuleFrame
+
+  private:
+    const CompiledStylesheet& stylesheet_;
+    const string_type mode_;
+    const Precedence generation_;
+
+    TemplateRuleFrame(const TemplateRuleFrame&);
+    TemplateRuleFrame& operator=(const TemplateRuleFrame&);
+  }; // class TemplateRuleFrame
+
   typedef std::vector<Template<string_type, string_adaptor>*> TemplateList;
   typedef typename TemplateList::const_iterator TemplateListIterator;
   typedef std::vector<MatchTemplate> MatchTemplates;
diff --git a/include/XSLT/impl/xslt_execution_context.hpp b/include/XSLT/impl/xslt_execution_context.hpp
index 96b48a6..f891a16 100644
--- a/include/XSLT/impl/xslt_execution_context.hpp
+++ b/include/XSLT/impl/xslt_execution_context.hpp
@@ -63,6 +63,8 @@ public:
     xpathContext_.setCurrentNode(rhs.xpathContext().currentNode());
     xpathContext_.setPosition(rhs.xpathContext().position());
     xpathContext_.setLast(rhs.xpathContext().last());
+    sink_.set_warning_sink(message_sink_.asOutput());
+    message_sink_.asOutput().set_warning_sink(message_sink_.asOutput());
   } // ExecutionContext
 
   const CompiledStylesheet<string_type, string_adaptor>& stylesheet() const { return stylesheet_; }
@@ -86,6 +88,7 @@ public:
   void declareParam(const DOM::Node<string_type, string_adaptor>& node, const Variable_declaration<string_type, string_adaptor>& param); 
   void declareVariable(const DOM::Node<string_type, string_adaptor>& node, const Variable_declaration<string_type, string_adaptor>& variable); 
   void freezeTopLevel();
+  void releaseTopLevel() { stack_.releaseTopLevel(); }
   void injectGlobalScope(const typename ScopeType<string_type, string_adaptor>::Scope& scope);
 
   void setPosition(const DOM::Node<string_type, string_adaptor>& current, size_t pos) { setPosition(current, static_cast<int>(pos)); }
diff --git a/include/XSLT/impl/xslt_key.hpp b/include/XSLT/impl/xslt_key.hpp
index 2f820ac..011ce6b 100644
--- a/include/XSLT/impl/xslt_key.hpp
+++ b/include/XSLT/impl/xslt_key.hpp
@@ -40,6 +40,8 @@ public:
     return f->second;
   } // lookup
 
+  void forget() const { nodesPerDocument_.clear(); }
+
 private:
   typedef std::map<string_type, NodeSet> NodeMap;
   typedef typename NodeMap::const_iterator NodeMapIterator;
@@ -97,6 +99,14 @@ public:
     keys_[name].push_back(key);
   } // add_key
 
+  // documents may change, or go away, between executions
+  void forget() const
+  {
+    for(KeysIterator i = keys_.begin(), ie = keys_.end(); i != ie; ++i)
+      for(KeyListIterator k = i->second.begin(), ke = i->second.end(); k != ke; ++k)
+        (*k)->forget();
+  } // forget
+
   NodeSet lookup(const string_type& name,
 	               const string_type& id,
                  const XPathContext& context) const
diff --git a/include/XSLT/impl/xslt_message.hpp b/include/XSLT/impl/xslt_message.hpp
index 15379ef..da522f7 100644
--- a/include/XSLT/impl/xslt_message.hpp
+++ b/include/XSLT/impl/xslt_message.hpp
@@ -26,6 +26,7 @@ public:
   {
     RedirectionFrame toMessageSink(context);
     this->execute_children(node, context);
+    toMessageSink.close();
 
     if(terminate_)
       throw SAX::SAXException("Stylesheet terminated by xsl:message");
@@ -37,11 +38,19 @@ private:
   class RedirectionFrame
   {
   public:
-    RedirectionFrame(ExecutionContext<string_type, string_adaptor>& context) : context_(context) { context_.redirectToMessageSink(); }
-    ~RedirectionFrame() { context_.revertFromMessageSink(); }
+    RedirectionFrame(ExecutionContext<string_type, string_adaptor>& context) : context_(context), open_(true) { context_.redirectToMessageSink(); }
+    ~RedirectionFrame() { try { close(); } catch(...) { } } // unwinding already
+    void close()
+    {
+      if(!open_)
+        return;
+      open_ = false;
+      context_.revertFromMessageSink();
+    } // close
 
   private:
     ExecutionContext<string_type, string_adaptor>& context_;
+    bool open_;
 
     RedirectionFrame();
     RedirectionFrame(const RedirectionFrame&);
diff --git a/include/XSLT/impl/xslt_output.hpp b/include/XSLT/impl/xslt_output.hpp
index 49f1e1d..7e40036 100644
--- a/include/XSLT/impl/xslt_output.hpp
+++ b/include/XSLT/impl/xslt_output.hpp
@@ -37,6 +37,16 @@ protected:
 public:
   void start_document(const Settings& settings, const CDATAElements& cdataElements)
   {
+    // whatever was left unfinished last time is not part of this document
+    buffering_ = 0;
+    pending_element_ = false;
+    pending_text_ = false;
+    pending_attribute_ = -1;
+    element_stack_ = std::stack<QName<string_type, string_adaptor> >();
+    atts_.clear();
+    namespaceStack_ = NamespaceStack<string_type, string_adaptor>();
+    do_disableOutputEscaping(false);
+
     typename Settings::const_iterator method = settings.find(SC::method);
     text_mode_ = (method != settings.end() && method->second == SC::text);
     if(text_mode_)
diff --git a/include/XSLT/impl/xslt_sink.hpp b/include/XSLT/impl/xslt_sink.hpp
index 6cf42ab..2f9e122 100644
--- a/include/XSLT/impl/xslt_sink.hpp
+++ b/include/XSLT/impl/xslt_sink.hpp
@@ -110,7 +110,7 @@ public:
 
   ~StreamSink() 
   { 
-    flush();
+    try { flush(); } catch(...) { } // the stream has kept its own record of the failure
   } // ~StreamSink
 
   virtual Output<string_type, string_adaptor>& asOutput() { return *this; }
@@ -125,9 +125,11 @@ protected:
   void do_start_document(const Settings& settings)
   {
     seen_root_ = false;
+    in_cdata_ = false;
+    empty_ = false;
+    out_again_ = false;
     settings_ = settings;
-    if(setting(SC::indent) == SC::yes)
-      indent_ = 0;
+    indent_ = (setting(SC::indent) == SC::yes) ? 0 : -1;
   } // do_start_document
 
   void do_end_document()
diff --git a/include/XSLT/impl/xslt_variable_stack.hpp b/include/XSLT/impl/xslt_variable_stack.hpp
index c896a3a..a548c3d 100644
--- a/include/XSLT/impl/xslt_variable_stack.hpp
+++ b/include/XSLT/impl/xslt_variable_stack.hpp
@@ -149,6 +149,14 @@ public:
       lookup(top, v->first);
   } // freezeTopLevel
   
+  // each top level variable sees all the others, so they have to let go of each other
+  void releaseTopLevel()
+  {
+    const Scope top = stack_.front();
+    for(typename Scope::const_iterator v = top.begin(), ve = top.end(); v != ve; ++v)
+      v->second->injectGlobalScope(Scope());
+  } // releaseTopLevel
+
   void injectGlobalScope(const Scope& scope)
   {
     stack_.front() = scope;
-- 
2.43.0


From 8a3de4d9bc0b114ff83863c339043fa8119c7d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:42 +0000
Subject: [PATCH 30/50] fix: evaluate XPath expressions with variables without
 an execution context

---
 include/XPath/impl/xpath_execution_context.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/XPath/impl/xpath_execution_context.hpp b/include/XPath/impl/xpath_execution_context.hpp
index 47c25c7..eef5670 100644
--- a/include/XPath/impl/xpath_execution_context.hpp
+++ b/include/XPath/impl/xpath_execution_context.hpp
@@ -18,6 +18,7 @@ public:
       position_(-1), 
       last_(-1)
   { 
+    variableResolver_.set(VariableResolverPtr<string_type, string_adaptor>(new NullVariableResolver<string_type, string_adaptor>()));
   } // ExecutionContext
 
   ExecutionContext(size_t last, const ExecutionContext<string_type, string_adaptor>& parent) : 
-- 
2.43.0


From 06379a4d206779d5400c7e66b8ceef669db36198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:42 +0000
Subject: [PATCH 31/50] fix: compare empty XPath node-sets

---
 include/XPath/impl/xpath_object.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 7727a0b..b0594b4 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -666,6 +666,8 @@ double maxValue(const NodeSet<string_type, string_adaptor>& ns)
 template<class Op, class string_type, class string_adaptor>
 bool compareNodeSets(const XPathValue<string_type, string_adaptor>& lhs, const XPathValue<string_type, string_adaptor>& rhs)
 {
+  if(lhs.asNodeSet().empty() || rhs.asNodeSet().empty())
+    return false;
   return Op()(minValue<string_type, string_adaptor>(lhs.asNodeSet()), maxValue<string_type, string_adaptor>(rhs.asNodeSet()));
 } // compareNodeSets
 
-- 
2.43.0


From 297b49907078d17df7973cfc99b473d712514b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:11 +0000
Subject: [PATCH 32/50] fix: XPath axes of nodes which are not part of a
 document

---
 include/XPath/impl/xpath_axis_enumerator.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/XPath/impl/xpath_axis_enumerator.hpp b/include/XPath/impl/xpath_axis_enumerator.hpp
index a654f47..95627c6 100644
--- a/include/XPath/impl/xpath_axis_enumerator.hpp
+++ b/include/XPath/impl/xpath_axis_enumerator.hpp
@@ -148,7 +148,7 @@ protected:
       return next;
             
     RawNodeT parent = context->getParentNode();
-    while(parent != origin && next == 0)
+    while(parent != origin && parent != 0 && next == 0)
     {
       next = parent->getNextSibling();
       parent = parent->getParentNode();
@@ -436,6 +436,8 @@ private:
     if(context->getNodeType() == DOM::Node_base::ATTRIBUTE_NODE)
     {
       RawNodeT owner = dynamic_cast<const DOM::Attr_impl<string_type, string_adaptor>* const>(context)->getOwnerElement();
+      if(owner == 0)
+        return 0;
       if(owner->hasChildNodes())
         return owner->getFirstChild();
       return firstFollowing(owner);
@@ -447,7 +449,7 @@ private:
       return next;
           
     RawNodeT parent = context->getParentNode();
-    while(parent != context->getOwnerDocument() && next == 0)
+    while(parent != context->getOwnerDocument() && parent != 0 && next == 0)
     {
       next = parent->getNextSibling();
       parent = parent->getParentNode();
@@ -501,7 +503,7 @@ public:
       push_back(context, 
                 string_adaptor::construct_from_utf8("xml"), 
                 string_adaptor::construct_from_utf8("http://www.w3.org/XML/1998/namespace"));
-    while(current->getNodeType() == DOM::Node_base::ELEMENT_NODE)
+    while((current != 0) && (current->getNodeType() == DOM::Node_base::ELEMENT_NODE))
     {
       for(unsigned int a = 0, ae = current->getAttributes()->getLength(); a != ae; ++a)
       {
@@ -599,6 +601,10 @@ public:
 private:
   void firstPreceding(const RawNodeT context)
   {
+    nextAncestor_ = 0;
+    if(context == 0)
+      return;
+
     nextAncestor_ = context->getParentNode();
     BaseT::set(previousInDocument(context));
   } // firstPreceding
-- 
2.43.0


From 97addabdc2d1820f2604ce42da9d9239c441109d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:05 +0000
Subject: [PATCH 33/50] fix: XPath unions are in document order even if one
 side is empty

---
 include/XPath/impl/xpath_union.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/include/XPath/impl/xpath_union.hpp b/include/XPath/impl/xpath_union.hpp
index 4e1f5ae..29a4a19 100644
--- a/include/XPath/impl/xpath_union.hpp
+++ b/include/XPath/impl/xpath_union.hpp
@@ -35,13 +35,7 @@ public:
     NodeSet<string_type, string_adaptor> ns1(p1.asNodeSet());
     NodeSet<string_type, string_adaptor> ns2(p2.asNodeSet());
 
-    // do the obvious optimizations
-    if(ns1.empty())
-      return wrap(ns2);
-    if(ns2.empty())
-      return wrap(ns1);
-
-    ns1.insert(ns1.end()-1, ns2.begin(), ns2.end());
+    ns1.insert(ns1.end(), ns2.begin(), ns2.end());
     ns1.to_document_order();
 
     return wrap(ns1);
-- 
2.43.0


From 9c343664c06628d7bcf97e328dd52821d5d4e5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:34 +0000
Subject: [PATCH 34/50] fix: only elements have XPath namespace nodes

---
 include/XPath/impl/xpath_axis_enumerator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_axis_enumerator.hpp b/include/XPath/impl/xpath_axis_enumerator.hpp
index 95627c6..4abf0ed 100644
--- a/include/XPath/impl/xpath_axis_enumerator.hpp
+++ b/include/XPath/impl/xpath_axis_enumerator.hpp
@@ -499,7 +499,7 @@ public:
     index_(0)
   {
     RawNodeT current = context;
-    if(current->getNodeType() != DOM::Node_base::ATTRIBUTE_NODE)
+    if(current->getNodeType() == DOM::Node_base::ELEMENT_NODE)
       push_back(context, 
                 string_adaptor::construct_from_utf8("xml"), 
                 string_adaptor::construct_from_utf8("http://www.w3.org/XML/1998/namespace"));
-- 
2.43.0


From d48f5bb5a9107f2c5dbc9c4603d633adf40207c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:58 +0000
Subject: [PATCH 35/50] fix: XPath mod with a zero or fractional right hand
 side

---
 include/XPath/impl/xpath_arithmetic.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_arithmetic.hpp b/include/XPath/impl/xpath_arithmetic.hpp
index 3d4d0f3..aff2033 100644
--- a/include/XPath/impl/xpath_arithmetic.hpp
+++ b/include/XPath/impl/xpath_arithmetic.hpp
@@ -1,6 +1,7 @@
 #ifndef ARABICA_XPATHIC_XPATH_ARITHMETIC_HPP
 #define ARABICA_XPATHIC_XPATH_ARITHMETIC_HPP
 
+#include <cmath>
 #include <functional>
 #include "xpath_value.hpp"
 #include "xpath_expression_impl.hpp"
@@ -68,7 +69,7 @@ struct NaN_aware_modulus
 	{	// apply operator% to operands 
     if(isNaN(lhs) || isNaN(rhs)) 
       return NaN; 
-    return (static_cast<long>(lhs) % static_cast<long>(rhs)); 
+    return std::fmod(lhs, rhs) + 0.0; 
 	}
 }; // NaN_aware_modulus
 
-- 
2.43.0


From efa53fbf1ada4ceb5a9496133b022402bd437b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:23 +0000
Subject: [PATCH 36/50] fix: XPath filter expressions with several predicates
 are in document order

---
 include/XPath/impl/xpath_step.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_step.hpp b/include/XPath/impl/xpath_step.hpp
index 3d35a7a..b5921bd 100644
--- a/include/XPath/impl/xpath_step.hpp
+++ b/include/XPath/impl/xpath_step.hpp
@@ -185,7 +185,9 @@ public:
 
     NodeSet<string_type, string_adaptor> ns = expr_->evaluate(context, executionContext).asNodeSet();
     ns.to_document_order();
-    return XPathValue<string_type, string_adaptor>(new NodeSetValue<string_type, string_adaptor>(baseT::applyPredicates(ns, executionContext)));
+    ns = baseT::applyPredicates(ns, executionContext);
+    ns.forward(true);
+    return XPathValue<string_type, string_adaptor>(new NodeSetValue<string_type, string_adaptor>(ns));
   } // evaluate
 
   virtual XPathValue<string_type, string_adaptor> evaluate(NodeSet<string_type, string_adaptor>& context, const ExecutionContext<string_type, string_adaptor>& executionContext) const
-- 
2.43.0


From 2162728010ccb270a1303240d72c62721b2b623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:48 +0000
Subject: [PATCH 37/50] fix: XPath order of nodes in different detached trees

---
 include/XPath/impl/xpath_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index b0594b4..1e0a229 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -104,7 +104,7 @@ int resolve_different_subtrees(const DOM::Node<string_type, string_adaptor>& lhs
     return 1;
 
   // otherwise, sort the frags
-  return (lp.underlying_impl() < lp.underlying_impl()) ? -1 : 1;
+  return (lp.underlying_impl() < rp.underlying_impl()) ? -1 : 1;
 } // resolve_different_subtrees
 
 template<class string_type, class string_adaptor>
-- 
2.43.0


From 87ed68156de17d86e71df8fffb0167200cba1dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:04 +0000
Subject: [PATCH 38/50] fix: XPath compilers in different threads race on
 Spirit's grammar tables

---
 include/XPath/impl/xpath_parser.hpp | 69 +++++++++++++++++++++++++----
 1 file changed, 61 insertions(+), 8 deletions(-)

diff --git a/include/XPath/impl/xpath_parser.hpp b/include/XPath/impl/xpath_parser.hpp
index 45e3319..021cb6c 100644
--- a/include/XPath/impl/xpath_parser.hpp
+++ b/include/XPath/impl/xpath_parser.hpp
@@ -16,6 +16,8 @@
 #include <stdexcept>
 #include <algorithm>
 #include <map>
+#include <memory>
+#include <mutex>
 #include "xpath_object.hpp"
 #include "xpath_expression.hpp"
 #include "xpath_ast.hpp"
@@ -56,6 +58,60 @@ namespace impl
 
   template<class string_type, class string_adaptor> class StepExpression;
 
+  // Spirit numbers its grammars and caches their definitions in process-wide tables
+  // it does not lock, so grammars are created, used and destroyed one at a time.
+  class xpath_grammars
+  {
+  public:
+    xpath_grammars() { lock l(mutex()); grammars_.reset(new grammars); }
+    ~xpath_grammars() { lock l(mutex()); grammars_.reset(); }
+
+    template<class iterator>
+    boost::spirit::tree_parse_info<iterator> parse_xpath(const iterator& first, const iterator& last) const
+    {
+      lock l(mutex());
+      return ast_parse(first, last, grammars_->xpath_);
+    } // parse_xpath
+
+    template<class iterator>
+    boost::spirit::tree_parse_info<iterator> parse_expr(const iterator& first, const iterator& last) const
+    {
+      lock l(mutex());
+      return ast_parse(first, last, grammars_->expr_);
+    } // parse_expr
+
+    template<class iterator>
+    boost::spirit::tree_parse_info<iterator> parse_match(const iterator& first, const iterator& last) const
+    {
+      lock l(mutex());
+      return ast_parse(first, last, grammars_->match_);
+    } // parse_match
+
+    template<class iterator>
+    boost::spirit::tree_parse_info<iterator> parse_attribute_value(const iterator& first, const iterator& last) const
+    {
+      lock l(mutex());
+      return ast_parse(first, last, grammars_->attribute_value_);
+    } // parse_attribute_value
+
+  private:
+    typedef std::lock_guard<std::mutex> lock;
+    static std::mutex& mutex() { static std::mutex m; return m; }
+
+    struct grammars
+    {
+      xpath_grammar xpath_;
+      xpath_grammar_expr expr_;
+      xpath_grammar_match match_;
+      xpath_grammar_attribute_value attribute_value_;
+    }; // struct grammars
+
+    std::unique_ptr<grammars> grammars_;
+
+    xpath_grammars(const xpath_grammars&);
+    xpath_grammars& operator=(const xpath_grammars&);
+  }; // class xpath_grammars
+
   template<class string_type, class string_adaptor>
   class StepList : public std::deque<impl::StepExpression<string_type, string_adaptor>*> { };
 } // namespace impl
@@ -171,31 +227,28 @@ private:
   typename impl::types<string_adaptor>::tree_info_t parse_xpath(const string_type& str) const
   {
     typename impl::types<string_adaptor>::str_iter_t first = string_adaptor::begin(str), last = string_adaptor::end(str);
-    return ast_parse(first, last, xpathg_);
+    return grammars_.parse_xpath(first, last);
   } // parse_xpath
 
   typename impl::types<string_adaptor>::tree_info_t parse_xpath_expr(const string_type& str) const
   {
     typename impl::types<string_adaptor>::str_iter_t first = string_adaptor::begin(str), last = string_adaptor::end(str);
-    return ast_parse(first, last, xpathge_);
+    return grammars_.parse_expr(first, last);
   } // parse_xpath_expr
 
   typename impl::types<string_adaptor>::tree_info_t parse_xpath_match(const string_type& str) const
   {
     typename impl::types<string_adaptor>::str_iter_t first = string_adaptor::begin(str), last = string_adaptor::end(str);
-    return ast_parse(first, last, xpathgm_);
+    return grammars_.parse_match(first, last);
   } // parse_xpath_match
 
   typename impl::types<string_adaptor>::tree_info_t parse_xpath_attribute_value_template(const string_type& str) const
   {
     typename impl::types<string_adaptor>::str_iter_t first = string_adaptor::begin(str), last = string_adaptor::end(str);
-    return ast_parse(first, last, xpathavt_);
+    return grammars_.parse_attribute_value(first, last);
   } // parse_xpath_attribute_value_template
 
-  impl::xpath_grammar xpathg_;
-  impl::xpath_grammar_expr xpathge_;
-  impl::xpath_grammar_match xpathgm_;
-  impl::xpath_grammar_attribute_value xpathavt_;
+  impl::xpath_grammars grammars_;
 
   impl::ResolverHolder<const NamespaceContext<string_type, string_adaptor> > namespaceContext_;
   impl::ResolverHolder<const VariableResolver<string_type, string_adaptor> > variableResolver_;
-- 
2.43.0


From 41d592571649b21a554afcdbfd2c7d65dc99aa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:04 +0000
Subject: [PATCH 39/50] fix: Xerces initialisation count is not protected
 against other threads

---
 src/SAX/wrappers/saxxerces.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SAX/wrappers/saxxerces.cpp b/src/SAX/wrappers/saxxerces.cpp
index 3e9eecf..c3a4d0f 100644
--- a/src/SAX/wrappers/saxxerces.cpp
+++ b/src/SAX/wrappers/saxxerces.cpp
@@ -5,6 +5,7 @@
 #pragma warning(disable: 4786 4800)
 #endif
 
+#include <mutex>
 #include <SAX/ParserConfig.hpp>
 #include <SAX/wrappers/saxxerces.hpp>
 
@@ -15,8 +16,11 @@ namespace SAX
 
 namespace XercesImpl
 {
+  static std::mutex initializer_mutex;
+
   void xerces_initializer::doInitialize()
   {
+    std::lock_guard<std::mutex> lock(initializer_mutex);
 	  if(!count_)
       XERCES_CPP_NAMESPACE::XMLPlatformUtils::Initialize();
 	  ++count_;
@@ -24,6 +28,7 @@ namespace XercesImpl
 
   void xerces_initializer::doTerminate()
   {
+    std::lock_guard<std::mutex> lock(initializer_mutex);
 	  --count_;
 	  if (!count_)
       XERCES_CPP_NAMESPACE::XMLPlatformUtils::Terminate();
-- 
2.43.0


From ab67dd094d42ae4b0eac96f0c84a6da6de221c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:04 +0000
Subject: [PATCH 40/50] fix: Taggle parsers in different threads lose reference
 counts of the shared null element

---
 include/Taggle/impl/Element.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Taggle/impl/Element.hpp b/include/Taggle/impl/Element.hpp
index 1f03d0f..ff9d90b 100755
--- a/include/Taggle/impl/Element.hpp
+++ b/include/Taggle/impl/Element.hpp
@@ -1,6 +1,7 @@
 #ifndef ARABICA_SAX_TAGSOUP_ELEMENT_HPP
 #define ARABICA_SAX_TAGSOUP_ELEMENT_HPP
 
+#include <atomic>
 #include <string>
 #include <SAX/helpers/AttributesImpl.hpp>
 #include "ElementType.hpp"
@@ -170,7 +171,7 @@ private:
   AttributesImpl<std::string> atts_;		// attributes of element
   Element next_;		// successor of element
   bool preclosed_;		// this element has been preclosed
-  int refCount_;
+  std::atomic<int> refCount_;  // Element::Null is shared by every parser in the process
 
 public:
   /**
-- 
2.43.0


From 53a1449fc7654c9d25230168867bdc1f749a67d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:28 +0000
Subject: [PATCH 41/50] fix: a skipped parameter entity is reported, and
 written, with its leading %

---
 include/SAX/filter/Writer.hpp     |  9 +++++++--
 include/SAX/wrappers/saxexpat.hpp | 16 +++++++++++-----
 src/SAX/wrappers/saxexpat.cpp     |  4 ++--
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/include/SAX/filter/Writer.hpp b/include/SAX/filter/Writer.hpp
index ba9c541..f6ac56f 100644
--- a/include/SAX/filter/Writer.hpp
+++ b/include/SAX/filter/Writer.hpp
@@ -395,8 +395,13 @@ template<class string_type, class string_adaptor>
 void Writer<string_type, string_adaptor>::skippedEntity(const string_type& name)
 {
   startElementClose();
-  if(!isDtd(name))
-    *stream_ << UnicodeT::AMPERSAND << name << UnicodeT::SEMI_COLON;
+  const bool parameterEntity = !name.empty() && (name[0] == UnicodeT::PERCENT_SIGN);
+  if(!isDtd(name) && ((!inDTD_) || internalSubset_))
+  {
+    if(!parameterEntity)
+      *stream_ << UnicodeT::AMPERSAND;
+    *stream_ << name << UnicodeT::SEMI_COLON;
+  }
 
   XMLFilterT::skippedEntity(name);
 } // skippedEntity
diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index 08df4f6..466580d 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -138,7 +138,7 @@ private:
   virtual void startCdataSection() = 0;
   virtual void endCdataSection() = 0;
   virtual void commentHandler(const XML_Char* data) = 0;
-  virtual void skippedEntity(const XML_Char* entityName) = 0;
+  virtual void skippedEntity(const XML_Char* entityName, bool isParameterEntity) = 0;
   virtual int externalEntityRefHandler(XML_Parser parser, 
                                        const XML_Char* context,
                                        const XML_Char* base,
@@ -320,7 +320,7 @@ class expat_wrapper :
     virtual void startCdataSection();
     virtual void endCdataSection();
     virtual void commentHandler(const XML_Char* data);
-    virtual void skippedEntity(const XML_Char* entityName);
+    virtual void skippedEntity(const XML_Char* entityName, bool isParameterEntity);
     virtual int externalEntityRefHandler(XML_Parser parser, 
                                          const XML_Char* context,
                                          const XML_Char* base,
@@ -1052,10 +1052,16 @@ void expat_wrapper<string_type, T0, T1>::commentHandler(const XML_Char *data)
 } // commentHandler
 
 template<class string_type, class T0, class T1>
-void expat_wrapper<string_type, T0, T1>::skippedEntity(const XML_Char *entityName)
+void expat_wrapper<string_type, T0, T1>::skippedEntity(const XML_Char *entityName, bool isParameterEntity)
 {
-  if(contentHandler_)
-    contentHandler_->skippedEntity(SA::construct_from_utf8(entityName));
+  if(!contentHandler_)
+    return;
+
+  string_type name;
+  if(isParameterEntity)
+    SA::append(name, SA::construct_from_utf8("%"));
+  SA::append(name, SA::construct_from_utf8(entityName));
+  contentHandler_->skippedEntity(name);
 } // skippedEntity
 
 template<class string_type, class T0, class T1>
diff --git a/src/SAX/wrappers/saxexpat.cpp b/src/SAX/wrappers/saxexpat.cpp
index d8a7ff0..acca4a3 100644
--- a/src/SAX/wrappers/saxexpat.cpp
+++ b/src/SAX/wrappers/saxexpat.cpp
@@ -132,10 +132,10 @@ void ewim_commentHandler(void* userData, const XML_Char* data)
   ewim_guard(p, [&]() { p->commentHandler(data); });
 } // commentHandler
 
-void ewim_skippedEntityHandler(void* userData, const XML_Char* entityName, int /* is_parameter_entity */)
+void ewim_skippedEntityHandler(void* userData, const XML_Char* entityName, int is_parameter_entity)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  ewim_guard(p, [&]() { p->skippedEntity(entityName); });
+  ewim_guard(p, [&]() { p->skippedEntity(entityName, is_parameter_entity != 0); });
 } // skippedEntityHandler
 
 
-- 
2.43.0


From 9b0d34ed8047fb3769a86878ede061fc1f90d581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:45 +0000
Subject: [PATCH 42/50] fix: NamespaceSupport::reset needs no memory, so a
 parse that ran out of it can be ended

---
 include/SAX/helpers/NamespaceSupport.hpp | 792 ++++++++++++-----------
 1 file changed, 402 insertions(+), 390 deletions(-)

diff --git a/include/SAX/helpers/NamespaceSupport.hpp b/include/SAX/helpers/NamespaceSupport.hpp
index 4f9998c..cf74c4f 100644
--- a/include/SAX/helpers/NamespaceSupport.hpp
+++ b/include/SAX/helpers/NamespaceSupport.hpp
@@ -1,390 +1,402 @@
-#ifndef ARABICA_NAMESPACE_SUPPORT_H
-#define ARABICA_NAMESPACE_SUPPORT_H
-
-#include <SAX/ArabicaConfig.hpp>
-#include <map>
-#include <vector>
-#include <functional>
-#include <XML/QName.hpp>
-#include <SAX/SAXException.hpp>
-
-namespace Arabica
-{
-namespace SAX
-{
-
-template<class string_type, class string_adaptor>
-struct NamespaceConstants
-{
-  const string_type xml;
-  const string_type xmlns;
-  const string_type xml_uri;
-  const string_type xmlns_uri;
-  const string_type xmlns11_uri;
-  const string_type colon;
-
-  NamespaceConstants() :
-    xml(string_adaptor::construct_from_utf8("xml")),
-    xmlns(string_adaptor::construct_from_utf8("xmlns")),
-    xml_uri(string_adaptor::construct_from_utf8("http://www.w3.org/XML/1998/namespace")),
-    xmlns_uri(),
-    xmlns11_uri(string_adaptor::construct_from_utf8("http://www.w3.org/2000/xmlns/")),
-    colon(string_adaptor::construct_from_utf8(":"))
-  {
-  } // NamespaceConstants
-}; // struct NamespaceContants
-
-/**
- * Encapsulate Namespace logic for use by SAX drivers.
- *
- * <p>This class encapsulates the logic of Namespace processing:
- * it tracks the declarations currently in force for each context
- * and automatically processes qualified XML 1.0 names into their
- * Namespace parts; it can also be used in reverse for generating
- * XML 1.0 from Namespaces.</p>
- *
- * <p>Namespace support objects are reusable, but the reset method
- * must be invoked between each session.</p>
- *
- * <p>Here is a simple session:</p>
- *
- * <pre>
- * NamespaceSupport support;
- *
- * support.pushContext();
- * support.declarePrefix("", "http://www.w3.org/1999/xhtml");
- * support.declarePrefix("dc", "http://www.purl.org/dc#");
- *
- * NamespaceSupport parts = support.processName("p", parts, false);
- * std::cout << "Namespace URI: " << parts.URI << std::endl;
- * std::cout << "Local name: " << parts.localName << std::endl;
- * std::cout << "Raw name: " << parts.rawName << std::endl;
-
- * parts = support.processName("dc:title", parts, false);
- * std::cout << "Namespace URI: " << parts.URI << std::endl;
- * std::cout << "Local name: " << parts.localName << std::endl;
- * std::cout << "Raw name: " << parts.rawName << std::endl;
-
- * support.popContext();
- * </pre>
- *
- * <p>Note that this class is optimized for the use case where most
- * elements do not contain Namespace declarations: if the same
- * prefix/URI mapping is repeated for each context (for example), this
- * class will be somewhat less efficient.</p>
- *
- * @since SAX 2.0
- * @author Jez Higgins, 
- *         <a href="mailto:jez@jezuk.co.uk">jez@jezuk.co.uk</a>
- * @version 2.0
- */
-template<class string_type, class string_adaptor>
-class NamespaceSupport
-{
-  public:
-    typedef std::vector<string_type> stringListT;
-
-    // functions
-    NamespaceSupport() 
-    { 
-      reset(); 
-    } // NamespaceSupport
-
-    /**
-     * Reset this Namespace support object for reuse.
-     *
-     * <p>It is necessary to invoke this method before reusing the
-     * Namespace support object for a new session.</p>
-     */
-    void reset()
-    {
-      contexts_.clear();
-      contexts_.push_back(Context());
-      contexts_.back().insert(std::make_pair(nsc_.xml, nsc_.xml_uri));
-    } // reset
-
-    ////////////////////////////////////////////////////////////////////
-    // Context management.
-    ////////////////////////////////////////////////////////////////////
-    /**
-     * Start a new Namespace context.
-     *
-     * <p>Normally, you should push a new context at the beginning
-     * of each XML element: the new context will automatically inherit
-     * the declarations of its parent context, but it will also keep
-     * track of which declarations were made within this context.</p>
-     *
-     * <p>The Namespace support object always starts with a base context
-     * already in force: in this context, only the "xml" prefix is
-     * declared.</p>
-     *
-     * @see #popContext
-     */
-    void pushContext()
-    {
-      contexts_.push_back(Context());
-    } // pushContext
-    
-    /**
-     * Revert to the previous Namespace context.
-     *
-     * <p>Normally, you should pop the context at the end of each
-     * XML element.  After popping the context, all Namespace prefix
-     * mappings that were previously in force are restored.</p>
-     *
-     * <p>You must not attempt to declare additional Namespace
-     * prefixes after popping a context, unless you push another
-     * context first.</p>
-     *
-     * @see #pushContext
-     */
-    void popContext()
-    {
-      contexts_.pop_back();
-    } // popContext
-
-    ////////////////////////////////////////////////////////////////////
-    // Operations within a context.
-    ////////////////////////////////////////////////////////////////////
-    /**
-     * Declare a Namespace prefix.
-     *
-     * <p>This method declares a prefix in the current Namespace
-     * context; the prefix will remain in force until this context
-     * is popped, unless it is shadowed in a descendant context.</p>
-     *
-     * <p>To declare a default Namespace, use the empty string.  The
-     * prefix must not be "xml" or "xmlns".</p>
-     *
-     * <p>Note that you must <em>not</em> declare a prefix after
-     * you've pushed and popped another Namespace.</p>
-     *
-     * <p>Note that there is an asymmetry in this library: while {@link
-     * #getPrefix getPrefix} will not return the default "" prefix,
-     * even if you have declared one; to check for a default prefix,
-     * you have to look it up explicitly using {@link #getURI getURI}.
-     * This asymmetry exists to make it easier to look up prefixes
-     * for attribute names, where the default prefix is not allowed.</p>
-     *
-     * @param prefix The prefix to declare, or the empty string.
-     * @param uri The Namespace URI to associate with the prefix.
-     * @return true if the prefix was legal, false otherwise
-     * @see #processName
-     * @see #getURI
-     * @see #getPrefix
-     */
-    bool declarePrefix(const string_type& prefix, const string_type& uri)
-    {
-      if((prefix == nsc_.xml) || (prefix == nsc_.xmlns))
-        return false;
-
-      contexts_.back().insert(std::make_pair(prefix, uri));
-      return true;
-    } // declarePrefix
-
-    /**
-     * Process a raw XML 1.0 name.
-     *
-     * <p>This method processes a raw XML 1.0 name in the current
-     * context by removing the prefix and looking it up among the
-     * prefixes currently declared.  
-     *
-     * <p>If
-     * the raw name has a prefix that has not been declared, then
-     * the return value will be empty.</p>
-     *
-     * <p>Note that attribute names are processed differently than
-     * element names: an unprefixed element name will received the
-     * default Namespace (if any), while an unprefixed attribute name
-     * will not.</p>
-     *
-     * @param qName The raw XML 1.0 name to be processed.
-     * @param isAttribute A flag indicating whether this is an
-     *        attribute name (true) or an element name (false).
-     * @return A <code>Parts</code> holding three strings representing the
-     *         Namespace URI (or empty string), the local name, and the raw XML
-     *         1.0 name.
-     * @see #declarePrefix
-     */
-  private:
-    class URIMapper
-    {
-    public:
-      URIMapper(const NamespaceSupport* ns) : ns_(ns) { }
-      string_type operator()(const string_type& prefix) const { return ns_->getURI(prefix); }
-    private:
-      const NamespaceSupport* const ns_;
-    }; // class URIMapper
-
-  public:
-    XML::QualifiedName<string_type, string_adaptor> processName(const string_type& rawName, bool isAttribute) const
-    {
-      try 
-      {
-        return XML::QualifiedName<string_type, string_adaptor>::parseQName(rawName, isAttribute, URIMapper(this));
-      } // try
-      catch(const std::runtime_error& ex)
-      {
-        throw SAX::SAXException(ex.what());
-      } // catch
-    } // processName
-
-    /**
-     * Look up a prefix and get the currently-mapped Namespace URI.
-     *
-     * <p>This method looks up the prefix in the current context.
-     * Use the empty string ("") for the default Namespace.</p>
-     *
-     * @param prefix The prefix to look up.
-     * @return The associated Namespace URI, or empty string if the prefix
-     *         is undeclared in this context.
-     * @see #getPrefix
-     * @see #getPrefixes
-     */
-    string_type getURI(const string_type& prefix) const
-    {
-      for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend(); ++i)
-      {
-        typename stringMapT::const_iterator u = i->find(prefix);
-        if(u != i->end())
-          return u->second;
-      } // for ...
-
-      return string_type();
-    } // getURI
-
-    /**
-     * Return one of the prefixes mapped to a Namespace URI.
-     *
-     * <p>If more than one prefix is currently mapped to the same
-     * URI, this method will make an arbitrary selection; if you
-     * want all of the prefixes, use the {@link #getPrefixes}
-     * method instead.</p>
-     *
-     * <p><strong>Note:</strong> this will never return the empty (default) prefix;
-     * to check for a default prefix, use the {@link #getURI getURI}
-     * method with an argument of "".</p>
-     *
-     * @param uri The Namespace URI.
-     * @return One of the prefixes currently mapped to the URI supplied,
-     *         or an empty string if none is mapped or if the URI is assigned to
-     *         the default Namespace.
-     * @see #getPrefixes(const string_type&)
-     * @see #getURI
-     */
-    string_type getPrefix(const string_type& uri) const
-    {
-      for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend(); ++i)
-      {
-        for(typename stringMapT::const_iterator u = i->begin(); u != i->end(); ++u)
-          if(u->second == uri)
-            return u->first;
-      } // for ...
-
-      return string_type();
-    } // getPrefix
-
-    /**
-     * Returns all prefixes currently declared.
-     *
-     * <p><strong>Note:</strong> if there is a default prefix, it will not be
-     * returned in this enumeration; check for the default prefix
-     * using the {@link #getURI getURI} with an argument of "".</p>
-     *
-     * @return A list of all prefixes declared in the
-     *         current context except for the empty (default)
-     *         prefix.
-     * @see #getDeclaredPrefixes
-     * @see #getURI
-     */
-    stringListT getPrefixes() const
-    {
-      stringListT prefixes;
-
-      for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend(); ++i)
-      {
-        for(typename stringMapT::const_iterator u = i->begin(); u != i->end(); ++u)
-          if(!string_adaptor::empty(u->first))
-            prefixes.push_back(u->first);
-      } // for ...
-       
-      return prefixes;
-    } // getPrefixes
-
-    /**
-     * Returns a list of all prefixes currently declared for a URI.
-     *
-     * <p>This method returns prefixes mapped to a specific Namespace
-     * URI.  The xml: prefix will be included.  If you want only one
-     * prefix that's mapped to the Namespace URI, and you don't care 
-     * which one you get, use the {@link #getPrefix getPrefix}
-     *  method instead.</p>
-     *
-     * <p><strong>Note:</strong> the empty (default) prefix is <em>never</em> included
-     * in this enumeration; to check for the presence of a default
-     * Namespace, use the {@link #getURI getURI} method with an
-     * argument of "".</p>
-     *
-     * @param uri The Namespace URI.
-     * @return A list of all prefixes declared in the
-     *         current context.
-     * @see #getPrefix
-     * @see #getDeclaredPrefixes
-     * @see #getURI
-     */
-    stringListT getPrefixes(const string_type& uri) const
-    {
-      stringListT prefixes;
-
-      for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend(); ++i)
-      {
-        for(typename stringMapT::const_iterator u = i->begin(); u != i->end(); ++u)
-          if(u->second == uri)
-            prefixes.push_back(u->first);
-      } // for ...
-
-      return prefixes;
-    } // getPrefixes
-
-    /**
-     * Return an enumeration of all prefixes declared in this context.
-     *
-     * <p>The empty (default) prefix will be included in this 
-     * enumeration; note that this behaviour differs from that of
-     * {@link #getPrefix} and {@link #getPrefixes}.</p>
-     *
-     * @return An enumeration of all prefixes declared in this
-     *         context.
-     * @see #getPrefixes
-     * @see #getURI
-     */
-    stringListT getDeclaredPrefixes() const
-    {
-      stringListT prefixes;
-
-      for(typename stringMapT::const_iterator u = contexts_.back().begin(); u != contexts_.back().end(); ++u)
-        prefixes.push_back(u->first);
-       
-      return prefixes;
-    } // getDeclaredPrefixes
-
-  private:
-    typedef typename std::multimap<string_type, string_type> stringMapT;
-    typedef stringMapT Context;
-    typedef typename std::vector<Context> contextListT;
-
-    // member variables
-    contextListT contexts_;
-
-    const NamespaceConstants<string_type, string_adaptor> nsc_;
-
-    // no impl
-    NamespaceSupport(const NamespaceSupport&);
-    NamespaceSupport& operator=(const NamespaceSupport&);
-    bool operator==(const NamespaceSupport&) const;
-}; // class NamespaceSupport
-
-} // namespace SAX
-} // namespace Arabica
-
-#endif // NamespaceSupportH
+#ifndef ARABICA_NAMESPACE_SUPPORT_H
+#define ARABICA_NAMESPACE_SUPPORT_H
+
+#include <SAX/ArabicaConfig.hpp>
+#include <map>
+#include <vector>
+#include <functional>
+#include <XML/QName.hpp>
+#include <SAX/SAXException.hpp>
+
+namespace Arabica
+{
+namespace SAX
+{
+
+template<class string_type, class string_adaptor>
+struct NamespaceConstants
+{
+  const string_type xml;
+  const string_type xmlns;
+  const string_type xml_uri;
+  const string_type xmlns_uri;
+  const string_type xmlns11_uri;
+  const string_type colon;
+
+  NamespaceConstants() :
+    xml(string_adaptor::construct_from_utf8("xml")),
+    xmlns(string_adaptor::construct_from_utf8("xmlns")),
+    xml_uri(string_adaptor::construct_from_utf8("http://www.w3.org/XML/1998/namespace")),
+    xmlns_uri(),
+    xmlns11_uri(string_adaptor::construct_from_utf8("http://www.w3.org/2000/xmlns/")),
+    colon(string_adaptor::construct_from_utf8(":"))
+  {
+  } // NamespaceConstants
+}; // struct NamespaceContants
+
+/**
+ * Encapsulate Namespace logic for use by SAX drivers.
+ *
+ * <p>This class encapsulates the logic of Namespace processing:
+ * it tracks the declarations currently in force for each context
+ * and automatically processes qualified XML 1.0 names into their
+ * Namespace parts; it can also be used in reverse for generating
+ * XML 1.0 from Namespaces.</p>
+ *
+ * <p>Namespace support objects are reusable, but the reset method
+ * must be invoked between each session.</p>
+ *
+ * <p>Here is a simple session:</p>
+ *
+ * <pre>
+ * NamespaceSupport support;
+ *
+ * support.pushContext();
+ * support.declarePrefix("", "http://www.w3.org/1999/xhtml");
+ * support.declarePrefix("dc", "http://www.purl.org/dc#");
+ *
+ * NamespaceSupport parts = support.processName("p", parts, false);
+ * std::cout << "Namespace URI: " << parts.URI << std::endl;
+ * std::cout << "Local name: " << parts.localName << std::endl;
+ * std::cout << "Raw name: " << parts.rawName << std::endl;
+
+ * parts = support.processName("dc:title", parts, false);
+ * std::cout << "Namespace URI: " << parts.URI << std::endl;
+ * std::cout << "Local name: " << parts.localName << std::endl;
+ * std::cout << "Raw name: " << parts.rawName << std::endl;
+
+ * support.popContext();
+ * </pre>
+ *
+ * <p>Note that this class is optimized for the use case where most
+ * elements do not contain Namespace declarations: if the same
+ * prefix/URI mapping is repeated for each context (for example), this
+ * class will be somewhat less efficient.</p>
+ *
+ * @since SAX 2.0
+ * @author Jez Higgins, 
+ *         <a href="mailto:jez@jezuk.co.uk">jez@jezuk.co.uk</a>
+ * @version 2.0
+ */
+template<class string_type, class string_adaptor>
+class NamespaceSupport
+{
+  public:
+    typedef std::vector<string_type> stringListT;
+
+    // functions
+    NamespaceSupport() 
+    { 
+      reset(); 
+    } // NamespaceSupport
+
+    /**
+     * Reset this Namespace support object for reuse.
+     *
+     * <p>It is necessary to invoke this method before reusing the
+     * Namespace support object for a new session.</p>
+     */
+    void reset()
+    {
+      if(contexts_.empty())
+      {
+        contexts_.push_back(Context());
+        contexts_.back().insert(std::make_pair(nsc_.xml, nsc_.xml_uri));
+        return;
+      } // if ...
+
+      // back to the base context and what it starts with, which takes no memory
+      contexts_.erase(contexts_.begin() + 1, contexts_.end());
+      Context& base = contexts_.front();
+      for(typename Context::iterator i = base.begin(); i != base.end(); )
+        if(i->first == nsc_.xml)
+          ++i;
+        else
+          base.erase(i++);
+    } // reset
+
+    ////////////////////////////////////////////////////////////////////
+    // Context management.
+    ////////////////////////////////////////////////////////////////////
+    /**
+     * Start a new Namespace context.
+     *
+     * <p>Normally, you should push a new context at the beginning
+     * of each XML element: the new context will automatically inherit
+     * the declarations of its parent context, but it will also keep
+     * track of which declarations were made within this context.</p>
+     *
+     * <p>The Namespace support object always starts with a base context
+     * already in force: in this context, only the "xml" prefix is
+     * declared.</p>
+     *
+     * @see #popContext
+     */
+    void pushContext()
+    {
+      contexts_.push_back(Context());
+    } // pushContext
+    
+    /**
+     * Revert to the previous Namespace context.
+     *
+     * <p>Normally, you should pop the context at the end of each
+     * XML element.  After popping the context, all Namespace prefix
+     * mappings that were previously in force are restored.</p>
+     *
+     * <p>You must not attempt to declare additional Namespace
+     * prefixes after popping a context, unless you push another
+     * context first.</p>
+     *
+     * @see #pushContext
+     */
+    void popContext()
+    {
+      contexts_.pop_back();
+    } // popContext
+
+    ////////////////////////////////////////////////////////////////////
+    // Operations within a context.
+    ////////////////////////////////////////////////////////////////////
+    /**
+     * Declare a Namespace prefix.
+     *
+     * <p>This method declares a prefix in the current Namespace
+     * context; the prefix will remain in force until this context
+     * is popped, unless it is shadowed in a descendant context.</p>
+     *
+     * <p>To declare a default Namespace, use the empty string.  The
+     * prefix must not be "xml" or "xmlns".</p>
+     *
+     * <p>Note that you must <em>not</em> declare a prefix after
+     * you've pushed and popped another Namespace.</p>
+     *
+     * <p>Note that there is an asymmetry in this library: while {@link
+     * #getPrefix getPrefix} will not return the default "" prefix,
+     * even if you have declared one; to check for a default prefix,
+     * you have to look it up explicitly using {@link #getURI getURI}.
+     * This asymmetry exists to make it easier to look up prefixes
+     * for attribute names, where the default prefix is not allowed.</p>
+     *
+     * @param prefix The prefix to declare, or the empty string.
+     * @param uri The Namespace URI to associate with the prefix.
+     * @return true if the prefix was legal, false otherwise
+     * @see #processName
+     * @see #getURI
+     * @see #getPrefix
+     */
+    bool declarePrefix(const string_type& prefix, const string_type& uri)
+    {
+      if((prefix == nsc_.xml) || (prefix == nsc_.xmlns))
+        return false;
+
+      contexts_.back().insert(std::make_pair(prefix, uri));
+      return true;
+    } // declarePrefix
+
+    /**
+     * Process a raw XML 1.0 name.
+     *
+     * <p>This method processes a raw XML 1.0 name in the current
+     * context by removing the prefix and looking it up among the
+     * prefixes currently declared.  
+     *
+     * <p>If
+     * the raw name has a prefix that has not been declared, then
+     * the return value will be empty.</p>
+     *
+     * <p>Note that attribute names are processed differently than
+     * element names: an unprefixed element name will received the
+     * default Namespace (if any), while an unprefixed attribute name
+     * will not.</p>
+     *
+     * @param qName The raw XML 1.0 name to be processed.
+     * @param isAttribute A flag indicating whether this is an
+     *        attribute name (true) or an element name (false).
+     * @return A <code>Parts</code> holding three strings representing the
+     *         Namespace URI (or empty string), the local name, and the raw XML
+     *         1.0 name.
+     * @see #declarePrefix
+     */
+  private:
+    class URIMapper
+    {
+    public:
+      URIMapper(const NamespaceSupport* ns) : ns_(ns) { }
+      string_type operator()(const string_type& prefix) const { return ns_->getURI(prefix); }
+    private:
+      const NamespaceSupport* const ns_;
+    }; // class URIMapper
+
+  public:
+    XML::QualifiedName<string_type, string_adaptor> processName(const string_type& rawName, bool isAttribute) const
+    {
+      try 
+      {
+        return XML::QualifiedName<string_type, string_adaptor>::parseQName(rawName, isAttribute, URIMapper(this));
+      } // try
+      catch(const std::runtime_error& ex)
+      {
+        throw SAX::SAXException(ex.what());
+      } // catch
+    } // processName
+
+    /**
+     * Look up a prefix and get the currently-mapped Namespace URI.
+     *
+     * <p>This method looks up the prefix in the current context.
+     * Use the empty string ("") for the default Namespace.</p>
+     *
+     * @param prefix The prefix to look up.
+     * @return The associated Namespace URI, or empty string if the prefix
+     *         is undeclared in this context.
+     * @see #getPrefix
+     * @see #getPrefixes
+     */
+    string_type getURI(const string_type& prefix) const
+    {
+      for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend(); ++i)
+      {
+        typename stringMapT::const_iterator u = i->find(prefix);
+        if(u != i->end())
+          return u->second;
+      } // for ...
+
+      return string_type();
+    } // getURI
+
+    /**
+     * Return one of the prefixes mapped to a Namespace URI.
+     *
+     * <p>If more than one prefix is currently mapped to the same
+     * URI, this method will make an arbitrary selection; if you
+     * want all of the prefixes, use the {@link #getPrefixes}
+     * method instead.</p>
+     *
+     * <p><strong>Note:</strong> this will never return the empty (default) prefix;
+     * to check for a default prefix, use the {@link #getURI getURI}
+     * method with an argument of "".</p>
+     *
+     * @param uri The Namespace URI.
+     * @return One of the prefixes currently mapped to the URI supplied,
+     *         or an empty string if none is mapped or if the URI is assigned to
+     *         the default Namespace.
+     * @see #getPrefixes(const string_type&)
+     * @see #getURI
+     */
+    string_type getPrefix(const string_type& uri) const
+    {
+      for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend(); ++i)
+      {
+        for(typename stringMapT::const_iterator u = i->begin(); u != i->end(); ++u)
+          if(u->second == uri)
+            return u->first;
+      } // for ...
+
+      return string_type();
+    } // getPrefix
+
+    /**
+     * Returns all prefixes currently declared.
+     *
+     * <p><strong>Note:</strong> if there is a default prefix, it will not be
+     * returned in this enumeration; check for the default prefix
+     * using the {@link #getURI getURI} with an argument of "".</p>
+     *
+     * @return A list of all prefixes declared in the
+     *         current context except for the empty (default)
+     *         prefix.
+     * @see #getDeclaredPrefixes
+     * @see #getURI
+     */
+    stringListT getPrefixes() const
+    {
+      stringListT prefixes;
+
+      for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend(); ++i)
+      {
+        for(typename stringMapT::const_iterator u = i->begin(); u != i->end(); ++u)
+          if(!string_adaptor::empty(u->first))
+            prefixes.push_back(u->first);
+      } // for ...
+       
+      return prefixes;
+    } // getPrefixes
+
+    /**
+     * Returns a list of all prefixes currently declared for a URI.
+     *
+     * <p>This method returns prefixes mapped to a specific Namespace
+     * URI.  The xml: prefix will be included.  If you want only one
+     * prefix that's mapped to the Namespace URI, and you don't care 
+     * which one you get, use the {@link #getPrefix getPrefix}
+     *  method instead.</p>
+     *
+     * <p><strong>Note:</strong> the empty (default) prefix is <em>never</em> included
+     * in this enumeration; to check for the presence of a default
+     * Namespace, use the {@link #getURI getURI} method with an
+     * argument of "".</p>
+     *
+     * @param uri The Namespace URI.
+     * @return A list of all prefixes declared in the
+     *         current context.
+     * @see #getPrefix
+     * @see #getDeclaredPrefixes
+     * @see #getURI
+     */
+    stringListT getPrefixes(const string_type& uri) const
+    {
+      stringListT prefixes;
+
+      for(typename contextListT::const_reverse_iterator i = contexts_.rbegin(); i != contexts_.rend(); ++i)
+      {
+        for(typename stringMapT::const_iterator u = i->begin(); u != i->end(); ++u)
+          if(u->second == uri)
+            prefixes.push_back(u->first);
+      } // for ...
+
+      return prefixes;
+    } // getPrefixes
+
+    /**
+     * Return an enumeration of all prefixes declared in this context.
+     *
+     * <p>The empty (default) prefix will be included in this 
+     * enumeration; note that this behaviour differs from that of
+     * {@link #getPrefix} and {@link #getPrefixes}.</p>
+     *
+     * @return An enumeration of all prefixes declared in this
+     *         context.
+     * @see #getPrefixes
+     * @see #getURI
+     */
+    stringListT getDeclaredPrefixes() const
+    {
+      stringListT prefixes;
+
+      for(typename stringMapT::const_iterator u = contexts_.back().begin(); u != contexts_.back().end(); ++u)
+        prefixes.push_back(u->first);
+       
+      return prefixes;
+    } // getDeclaredPrefixes
+
+  private:
+    typedef typename std::multimap<string_type, string_type> stringMapT;
+    typedef stringMapT Context;
+    typedef typename std::vector<Context> contextListT;
+
+    // member variables
+    contextListT contexts_;
+
+    const NamespaceConstants<string_type, string_adaptor> nsc_;
+
+    // no impl
+    NamespaceSupport(const NamespaceSupport&);
+    NamespaceSupport& operator=(const NamespaceSupport&);
+    bool operator==(const NamespaceSupport&) const;
+}; // class NamespaceSupport
+
+} // namespace SAX
+} // namespace Arabica
+
+#endif // NamespaceSupportH
-- 
2.43.0


From 86e40ddb00b4743c72c19757749e81f1e104e7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:52 +0000
Subject: [PATCH 43/50] fix: DOM nodes inserted, moved, replaced or removed
 when memory runs out were left half in the tree

---
 include/DOM/Simple/NodeImpl.hpp | 51 ++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index 053b26b..b36a5c5 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -409,17 +409,29 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
       if(newChild->getNodeType() == DOM::Node_base::DOCUMENT_FRAGMENT_NODE)
       {
         for(NodeImplT* child = newChild->getFirst(); child != 0; child = newChild->getFirst())
-          insertBefore(newChild->removeChild(child), refChild);
+          insertBefore(child, refChild);
         return newChild;
       } // if ...
 
       if(newChild == refChild)
         return newChild;
 
-      removeIfRequired(newChild);
+      // everything that takes memory comes before the first change
+      nodes_.insert(refChild ? findChild(refChild) : nodes_.end(), static_cast<NodeImplT*>(0));
+      try
+      {
+        removeIfRequired(newChild);
+      }
+      catch(...)
+      {
+        nodes_.erase(findChild(0));
+        throw;
+      } // catch
+      typename NodeListT::iterator place = findChild(0);
+      *place = newChild;
+
       if(refChild)
       {
-        nodes_.insert(findChild(refChild), newChild);
 
         NodeImplT* prev = refChild->getPrev();
         if(prev != 0)
@@ -430,12 +442,12 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
       }
       else
       {
-        if(!nodes_.empty())
+        if(place != nodes_.begin())
         {
-          (*nodes_.rbegin())->setNext(newChild);
-          newChild->setPrev(*nodes_.rbegin());
-        } //
-        nodes_.push_back(newChild);
+          NodeImplT* prev = *(place - 1);
+          prev->setNext(newChild);
+          newChild->setPrev(prev);
+        } // if ...
       }
 
       newChild->setParentNode(this);
@@ -463,7 +475,18 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
       if(newChild == oldChild)
         return oldChild;
 
-      removeIfRequired(newChild);
+      // everything that takes memory comes before the first change
+      aboutToOrphan(oldChild);
+      try
+      {
+        removeIfRequired(newChild);
+      }
+      catch(...)
+      {
+        if(NodeImplT::ownerDoc_)
+          NodeImplT::ownerDoc_->adopted(oldChild);
+        throw;
+      } // catch
       typename std::deque<NodeImplT*>::iterator result = findChild(oldChild);
       *result = newChild;
       newChild->setParentNode(this);
@@ -490,7 +513,9 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
     {
       NodeImplT::throwIfReadOnly();
 
-      nodes_.erase(findChild(oldChild));
+      typename NodeListT::iterator place = findChild(oldChild);
+      aboutToOrphan(oldChild); // takes memory, so before the first change
+      nodes_.erase(place);
 
       NodeImplT* prev = oldChild->getPrev();
       NodeImplT* next = oldChild->getNext();
@@ -530,6 +555,12 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
       return result;
     } // findChild
 
+    void aboutToOrphan(NodeImplT* child)
+    {
+      if(NodeImplT::ownerDoc_)
+        NodeImplT::ownerDoc_->orphaned(child);
+    } // aboutToOrphan
+
     void removeIfRequired(NodeImplT* newNode) const
     {
       if(newNode->getParentNode() != 0)
-- 
2.43.0


From e7809748fa3bc12adf20dc399550ae9e3fb6b375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:43 +0000
Subject: [PATCH 44/50] fix: splitText lost the second half when memory ran out

---
 include/DOM/Simple/CDATASectionImpl.hpp | 3 ++-
 include/DOM/Simple/TextImpl.hpp         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/DOM/Simple/CDATASectionImpl.hpp b/include/DOM/Simple/CDATASectionImpl.hpp
index 36e4a65..b29dc0c 100644
--- a/include/DOM/Simple/CDATASectionImpl.hpp
+++ b/include/DOM/Simple/CDATASectionImpl.hpp
@@ -32,13 +32,14 @@ class CDATASectionImpl : public DOM::CDATASection_impl<stringT, string_adaptorT>
       CharacterDataImplT::throwIfReadOnly();
 
       stringT second = CharacterDataImplT::substringData(offset, CharacterDataImplT::getLength() - offset);
-      CharacterDataImplT::deleteData(offset, CharacterDataImplT::getLength() - offset);
 
       CDATASectionImpl* splitNode = new CDATASectionImpl(CharacterDataImplT::getOwnerDoc(), second);
       CharacterDataImplT::getOwnerDoc()->orphaned(splitNode);
       DOM::Node_impl<stringT, string_adaptorT>* parent = CharacterDataImplT::getParentNode();
       if(parent)
         parent->insertBefore(splitNode, CharacterDataImplT::getNextSibling());
+      // last, because what comes before may run out of memory
+      CharacterDataImplT::deleteData(offset, CharacterDataImplT::getLength() - offset);
       return splitNode;
     } // splitText
 
diff --git a/include/DOM/Simple/TextImpl.hpp b/include/DOM/Simple/TextImpl.hpp
index dc722af..c9243d8 100644
--- a/include/DOM/Simple/TextImpl.hpp
+++ b/include/DOM/Simple/TextImpl.hpp
@@ -33,13 +33,14 @@ class TextImpl : public DOM::Text_impl<stringT, string_adaptorT>,
       CharacterDataT::throwIfReadOnly();
 
       stringT second = CharacterDataT::substringData(offset, CharacterDataT::getLength() - offset);
-      CharacterDataT::deleteData(offset, CharacterDataT::getLength() - offset);
 
       TextImpl* splitNode = new TextImpl(CharacterDataT::getOwnerDoc(), second);
       CharacterDataT::getOwnerDoc()->orphaned(splitNode);
       DOMNode_implT *parent = CharacterDataT::getParentNode();
       if(parent)
         parent->insertBefore(splitNode, CharacterDataT::getNextSibling());
+      // last, because what comes before may run out of memory
+      CharacterDataT::deleteData(offset, CharacterDataT::getLength() - offset);
       return splitNode;
     } // splitText
 
-- 
2.43.0


From 42ac93414ea52e2b5327faeeb25cdcd02a61811d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:35 +0000
Subject: [PATCH 45/50] fix: DOM attributes, their values and normalize() were
 left half changed when memory ran out

---
 include/DOM/Simple/AttrImpl.hpp         |  7 ++---
 include/DOM/Simple/AttrMap.hpp          | 27 ++++++++++---------
 include/DOM/Simple/NamedNodeMapImpl.hpp | 20 +++++++-------
 include/DOM/Simple/NodeImpl.hpp         | 35 ++++++++++++++++++++++++-
 4 files changed, 62 insertions(+), 27 deletions(-)

diff --git a/include/DOM/Simple/AttrImpl.hpp b/include/DOM/Simple/AttrImpl.hpp
index 41a3c9e..9ee6a20 100644
--- a/include/DOM/Simple/AttrImpl.hpp
+++ b/include/DOM/Simple/AttrImpl.hpp
@@ -132,12 +132,9 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
     {
       NodeT::throwIfReadOnly();
 
-      // remove all children
-      for(DOMNode_implT* c = NodeT::getFirstChild(); c != 0; c = NodeT::getFirstChild())
-        NodeT::removeChild(c);
-
       // add a new text node
-      NodeT::appendChild(NodeT::ownerDoc_->createTextNode(data));
+      DOMNode_implT* text = NodeT::ownerDoc_->createTextNode(data);
+      NodeT::replaceChildren(text);
 
       valueCalculated_ = false;
       specified_ = true;
diff --git a/include/DOM/Simple/AttrMap.hpp b/include/DOM/Simple/AttrMap.hpp
index ccc70af..93cb952 100644
--- a/include/DOM/Simple/AttrMap.hpp
+++ b/include/DOM/Simple/AttrMap.hpp
@@ -1,6 +1,7 @@
 #ifndef JEZUK_SimpleDOM_ATTRMAP_H
 #define JEZUK_SimpleDOM_ATTRMAP_H
 
+#include <memory>
 #include <DOM/Simple/NamedNodeMapImpl.hpp>
 #include <DOM/Simple/AttrImpl.hpp>
 #include <DOM/Simple/AttrNSImpl.hpp>
@@ -40,8 +41,9 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
       AttrImplT* attr = checkCanSet(newAttr);
       if(alreadyHere(attr))
         return attr;
+      DOMNode_implT* previous = NamedNodeMapImplT::setNamedItem(attr);
       attr->setOwnerElement(ownerElement_);
-      return disowned(NamedNodeMapImplT::setNamedItem(attr));
+      return disowned(previous);
     } // setNamedItem
 
     virtual DOMNode_implT* removeNamedItem(const stringT& name)
@@ -75,9 +77,9 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
         existing->setValue(value);
         return;
       } // if ...
-      AttrImplT* a = new AttrImplT(NamedNodeMapImplT::ownerDoc_, name, value);
-      a->setOwnerElement(ownerElement_);
-      NamedNodeMapImplT::setNamedItem(a);
+      std::unique_ptr<AttrImplT> a(new AttrImplT(NamedNodeMapImplT::ownerDoc_, name, value));
+      NamedNodeMapImplT::setNamedItem(a.get());
+      a.release()->setOwnerElement(ownerElement_);
     } // setAttribute
 
     void removeAttribute(const stringT& name)    
@@ -115,22 +117,22 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
     void setAttributeNS(const stringT& namespaceURI, const stringT& qualifiedName, const stringT& value)    
     {
       NamedNodeMapImplT::throwIfReadOnly();
-      AttrNSImplT* a = new AttrNSImplT(NamedNodeMapImplT::ownerDoc_, 
-                                       namespaceURI, 
-                                       !string_adaptorT::empty(namespaceURI), 
-                                       qualifiedName);
+      std::unique_ptr<AttrNSImplT> a(new AttrNSImplT(NamedNodeMapImplT::ownerDoc_, 
+                                                     namespaceURI, 
+                                                     !string_adaptorT::empty(namespaceURI), 
+                                                     qualifiedName));
       DOMAttr_implT* existing = getAttributeNodeNS(a->getNamespaceURI(), a->getLocalName());
       if(existing && !string_adaptorT::empty(existing->getLocalName()))
       {
         if(existing->hasNamespaceURI())
           existing->setPrefix(a->getPrefix());
         existing->setValue(value);
-        delete a;
         return;
       } // if ...
       a->setValue(value);
-      a->setOwnerElement(ownerElement_);
-      disowned(NamedNodeMapImplT::setNamedItemNS(a));
+      DOMNode_implT* previous = NamedNodeMapImplT::setNamedItemNS(a.get());
+      a.release()->setOwnerElement(ownerElement_);
+      disowned(previous);
     } // setAttributeNS
 
     void removeAttributeNS(const stringT& namespaceURI, const stringT& localName)    
@@ -155,8 +157,9 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
       AttrImplT* attr = checkCanSet(newAttr);
       if(alreadyHere(attr))
         return attr;
+      DOMNode_implT* previous = NamedNodeMapImplT::setNamedItemNS(newAttr);
       attr->setOwnerElement(ownerElement_);
-      return disowned(NamedNodeMapImplT::setNamedItemNS(newAttr));
+      return disowned(previous);
     } // setNamedItem
 
     bool hasAttribute(const stringT& name) const    
diff --git a/include/DOM/Simple/NamedNodeMapImpl.hpp b/include/DOM/Simple/NamedNodeMapImpl.hpp
index babbaff..14ea8cc 100644
--- a/include/DOM/Simple/NamedNodeMapImpl.hpp
+++ b/include/DOM/Simple/NamedNodeMapImpl.hpp
@@ -196,17 +196,19 @@ class NamedNodeMapImpl : public DOM::NamedNodeMap_impl<stringT, string_adaptorT>
 
     NodeImplT* setNode(typename NodeListT::iterator n, NodeImplT* arg)
     {
-      if(ownerDoc_)
-        ownerDoc_->adopted(arg);
+      // what takes memory comes first
+      NodeImplT* removedNode = 0;
       if(n == nodes_.end())
-      {
         nodes_.push_back(arg);
-        return 0;
-      } // if(n == nodes_.end())
+      else
+      {
+        removedNode = *n;
+        ownerDoc_->orphaned(removedNode);
+        *n = arg;
+      } // if ...
 
-      NodeImplT* removedNode = *n;
-      *n = arg;
-      ownerDoc_->orphaned(removedNode);
+      if(ownerDoc_)
+        ownerDoc_->adopted(arg);
       return removedNode;
     } // setNode
 
@@ -215,8 +217,8 @@ class NamedNodeMapImpl : public DOM::NamedNodeMap_impl<stringT, string_adaptorT>
       if(n == nodes_.end())
         throw DOM::DOMException(DOM::DOMException::NOT_FOUND_ERR);
       NodeImplT* removedNode = *n;
+      ownerDoc_->orphaned(removedNode); // takes memory, so first
       nodes_.erase(n);
-      ownerDoc_->orphaned(removedNode);
       return removedNode;
     } // removeNode
 
diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index b36a5c5..103fdb6 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -112,7 +112,20 @@ class NodeImpl : virtual public DOM::Node_impl<stringT, string_adaptorT>
           while((next != 0) &&
                 (next->getNodeType() == DOM::Node_base::TEXT_NODE))
           {
-            textNode->appendData(next->getNodeValue());
+            // running out of memory must not leave the text there twice, or not at all
+            NodeImplT* joined = dynamic_cast<NodeImplT*>(next);
+            if(ownerDoc_)
+              ownerDoc_->orphaned(joined);
+            try
+            {
+              textNode->appendData(next->getNodeValue());
+            }
+            catch(...)
+            {
+              if(ownerDoc_)
+                ownerDoc_->adopted(joined);
+              throw;
+            } // catch
             removeChild(next);
             next = textNode->getNextSibling();
           } // while
@@ -538,6 +551,26 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
       return do_insertBefore(newChild, 0);
     } // appendChild
 
+    // newChild instead of all the children there are; what takes memory comes before the first change
+    void replaceChildren(DOMNode_implT* newChild)
+    {
+      try
+      {
+        for(typename NodeListT::iterator i = nodes_.begin(); i != nodes_.end(); ++i)
+          aboutToOrphan(*i);
+        appendChild(newChild);
+      }
+      catch(...)
+      {
+        for(typename NodeListT::iterator i = nodes_.begin(); i != nodes_.end(); ++i)
+          NodeImplT::ownerDoc_->adopted(*i);
+        throw;
+      } // catch
+
+      while(nodes_.front() != newChild)
+        removeChild(nodes_.front());
+    } // replaceChildren
+
     void do_purgeChild(NodeImplT* oldChild)
     {
       removeChild(oldChild);
-- 
2.43.0


From 614d9b93e5c41eb3cb384a190f3b315321441947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:00 +0000
Subject: [PATCH 46/50] fix: DOM attributes with ids or defaults were left half
 changed when memory ran out

---
 include/DOM/Simple/AttrImpl.hpp | 31 +++++++------
 include/DOM/Simple/AttrMap.hpp  | 80 +++++++++++++++++++--------------
 2 files changed, 63 insertions(+), 48 deletions(-)

diff --git a/include/DOM/Simple/AttrImpl.hpp b/include/DOM/Simple/AttrImpl.hpp
index 9ee6a20..f85a712 100644
--- a/include/DOM/Simple/AttrImpl.hpp
+++ b/include/DOM/Simple/AttrImpl.hpp
@@ -142,27 +142,30 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
 
     /////////////////////////////////////////////////////////////
     // this implementation
+    // takes no memory, so an attribute that is to be owned is enrolled first
     void setOwnerElement(ElementImplT* element)
     {
       ownerElement_ = element;
-      if(!ownerElement_)
-      {
-        if(NodeT::ownerDoc_)
-          NodeT::ownerDoc_->removeElementId(this);
+      if(!NodeT::ownerDoc_)
         return;
-      } // if ...
-      if(NodeT::ownerDoc_)
-      {
+      if(!ownerElement_)
+        NodeT::ownerDoc_->removeElementId(this);
+      else
         NodeT::ownerDoc_->adopted(this);  // don't have a parent but are owned
-        DocumentTypeImpl<stringT, string_adaptorT>* docType = dynamic_cast<DocumentTypeImpl<stringT, string_adaptorT>*>(NodeT::ownerDoc_->getDoctype());
-        if(!docType || docType->getElementIds()->empty())
-          return;
-        std::vector<stringT>* elemIds = docType->getElementIds();
-        if(std::find(elemIds->begin(), elemIds->end(), *name_) != elemIds->end())
-          NodeT::ownerDoc_->setElementId(this);
-      } // if(ownerDoc_)
     } // setOwnerElement
 
+    void enrolElementId()
+    {
+      if(!NodeT::ownerDoc_)
+        return;
+      DocumentTypeImpl<stringT, string_adaptorT>* docType = dynamic_cast<DocumentTypeImpl<stringT, string_adaptorT>*>(NodeT::ownerDoc_->getDoctype());
+      if(!docType || docType->getElementIds()->empty())
+        return;
+      std::vector<stringT>* elemIds = docType->getElementIds();
+      if(std::find(elemIds->begin(), elemIds->end(), *name_) != elemIds->end())
+        NodeT::ownerDoc_->setElementId(this);
+    } // enrolElementId
+
     void setSpecified(bool specified) { specified_ = specified; }
 
     virtual void childDataChanged() { valueCalculated_ = false; }
diff --git a/include/DOM/Simple/AttrMap.hpp b/include/DOM/Simple/AttrMap.hpp
index 93cb952..f036144 100644
--- a/include/DOM/Simple/AttrMap.hpp
+++ b/include/DOM/Simple/AttrMap.hpp
@@ -41,23 +41,23 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
       AttrImplT* attr = checkCanSet(newAttr);
       if(alreadyHere(attr))
         return attr;
-      DOMNode_implT* previous = NamedNodeMapImplT::setNamedItem(attr);
-      attr->setOwnerElement(ownerElement_);
-      return disowned(previous);
+      return own(attr, false);
     } // setNamedItem
 
     virtual DOMNode_implT* removeNamedItem(const stringT& name)
     {
-      DOMNode_implT* n = disowned(NamedNodeMapImplT::removeNamedItem(name));
-      createDefault(name);
-      return n;
+      DOMAttr_implT* byDefault = createDefault(NamedNodeMapImplT::getNamedItem(name), name);
+      if(byDefault)
+        return setAttributeNode(byDefault);
+      return disowned(NamedNodeMapImplT::removeNamedItem(name));
     } // removeNamedItem
 
     virtual DOMNode_implT* removeNamedItemNS(const stringT& namespaceURI, const stringT& localName)
     {
-      DOMNode_implT* n = disowned(NamedNodeMapImplT::removeNamedItemNS(namespaceURI, localName));
-      createDefault(namespaceURI, localName);
-      return n;
+      DOMAttr_implT* byDefault = createDefault(NamedNodeMapImplT::getNamedItemNS(namespaceURI, localName), namespaceURI, localName);
+      if(byDefault)
+        return setAttributeNodeNS(byDefault);
+      return disowned(NamedNodeMapImplT::removeNamedItemNS(namespaceURI, localName));
     } // removedNamedItemNS   
       
 
@@ -78,8 +78,8 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
         return;
       } // if ...
       std::unique_ptr<AttrImplT> a(new AttrImplT(NamedNodeMapImplT::ownerDoc_, name, value));
-      NamedNodeMapImplT::setNamedItem(a.get());
-      a.release()->setOwnerElement(ownerElement_);
+      own(a.get(), false);
+      a.release();
     } // setAttribute
 
     void removeAttribute(const stringT& name)    
@@ -103,8 +103,12 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
     {
       if(oldAttr->getOwnerElement() != ownerElement_)
         throw DOM::DOMException(DOM::DOMException::NOT_FOUND_ERR);
+      DOMAttr_implT* byDefault = createDefault(NamedNodeMapImplT::getNamedItem(oldAttr->getNodeName()), oldAttr->getNodeName());
+      if(byDefault && getAttributeNode(oldAttr->getNodeName()) == oldAttr)
+        return setAttributeNode(byDefault);
       disowned(NamedNodeMapImplT::removeItem(dynamic_cast<AttrImplT*>(oldAttr)));
-      createDefault(oldAttr->getNodeName());
+      if(byDefault)
+        setAttributeNode(byDefault);
       return oldAttr;
     } // removeAttributeNode
 
@@ -130,9 +134,8 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
         return;
       } // if ...
       a->setValue(value);
-      DOMNode_implT* previous = NamedNodeMapImplT::setNamedItemNS(a.get());
-      a.release()->setOwnerElement(ownerElement_);
-      disowned(previous);
+      own(a.get(), true);
+      a.release();
     } // setAttributeNS
 
     void removeAttributeNS(const stringT& namespaceURI, const stringT& localName)    
@@ -157,9 +160,7 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
       AttrImplT* attr = checkCanSet(newAttr);
       if(alreadyHere(attr))
         return attr;
-      DOMNode_implT* previous = NamedNodeMapImplT::setNamedItemNS(newAttr);
-      attr->setOwnerElement(ownerElement_);
-      return disowned(previous);
+      return own(attr, true);
     } // setNamedItem
 
     bool hasAttribute(const stringT& name) const    
@@ -185,26 +186,19 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
     } // setOwnerDoc
 
   private:
-    void createDefault(const stringT& name) 
+    // the attribute which takes the place of the one about to be removed
+    DOMAttr_implT* createDefault(DOMNode_implT* removing, const stringT& name) 
     {
-      DOMNamedNodeMap_implT* attrs = getDefaultAttrs();
-      if(attrs)
-      {
-        DOMNode_implT* attr = attrs->getNamedItem(name);
-        if(attr)
-          setAttributeNode(dynamic_cast<DOMAttr_implT*>(attr->cloneNode(true)));
-      }
+      DOMNamedNodeMap_implT* attrs = removing ? getDefaultAttrs() : 0;
+      DOMNode_implT* attr = attrs ? attrs->getNamedItem(name) : 0;
+      return attr ? dynamic_cast<DOMAttr_implT*>(attr->cloneNode(true)) : 0;
     } // createDefault
 
-    void createDefault(const stringT& namespaceURI, const stringT& localName) 
+    DOMAttr_implT* createDefault(DOMNode_implT* removing, const stringT& namespaceURI, const stringT& localName) 
     {
-      DOMNamedNodeMap_implT* attrs = getDefaultAttrs();
-      if(attrs)
-      {
-        DOMNode_implT* attr = attrs->getNamedItemNS(namespaceURI, localName);
-        if(attr)
-          setAttributeNodeNS(dynamic_cast<DOMAttr_implT*>(attr->cloneNode(true)));
-      } 
+      DOMNamedNodeMap_implT* attrs = removing ? getDefaultAttrs() : 0;
+      DOMNode_implT* attr = attrs ? attrs->getNamedItemNS(namespaceURI, localName) : 0;
+      return attr ? dynamic_cast<DOMAttr_implT*>(attr->cloneNode(true)) : 0;
     } // createDefault
 
     void getDefaults()
@@ -250,6 +244,24 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
       return attr;
     } // checkCanSet
 
+    // what takes memory comes before the first change
+    DOMAttr_implT* own(AttrImplT* attr, bool byNamespace)
+    {
+      DOMNode_implT* previous = 0;
+      attr->enrolElementId();
+      try
+      {
+        previous = byNamespace ? NamedNodeMapImplT::setNamedItemNS(attr) : NamedNodeMapImplT::setNamedItem(attr);
+      }
+      catch(...)
+      {
+        attr->setOwnerElement(0);
+        throw;
+      } // catch
+      attr->setOwnerElement(ownerElement_);
+      return disowned(previous);
+    } // own
+
     DOMAttr_implT* disowned(DOMNode_implT* node)
     {
       AttrImplT* attr = dynamic_cast<AttrImplT*>(node);
-- 
2.43.0


From 317887a87a7bfa11da12c09bbbd9c99d8d90148d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:48 +0000
Subject: [PATCH 47/50] fix: an execution that runs out of memory ends without
 std::terminate

---
 include/XSLT/impl/xslt_variable_stack.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/XSLT/impl/xslt_variable_stack.hpp b/include/XSLT/impl/xslt_variable_stack.hpp
index a548c3d..c5c6fc9 100644
--- a/include/XSLT/impl/xslt_variable_stack.hpp
+++ b/include/XSLT/impl/xslt_variable_stack.hpp
@@ -152,7 +152,8 @@ public:
   // each top level variable sees all the others, so they have to let go of each other
   void releaseTopLevel()
   {
-    const Scope top = stack_.front();
+    Scope top;
+    top.swap(stack_.front()); // no copy, as this must not need memory
     for(typename Scope::const_iterator v = top.begin(), ve = top.end(); v != ve; ++v)
       v->second->injectGlobalScope(Scope());
   } // releaseTopLevel
-- 
2.43.0


From 23b897681f8afef1cbeed20bd58a997d9096c0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:44 +0000
Subject: [PATCH 48/50] fix: leaving a template rule needs no memory

The frame's destructor copied the mode and the import precedence back;
when an instruction had failed for want of memory, that copy could fail
too, inside a destructor, and end the process.
---
 include/XSLT/impl/xslt_compiled_stylesheet.hpp | 8 ++++----
 include/XSLT/impl/xslt_precedence.hpp          | 6 ++++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/XSLT/impl/xslt_compiled_stylesheet.hpp b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
index 0c49c71..b788e66 100644
--- a/include/XSLT/impl/xslt_compiled_stylesheet.hpp
+++ b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
@@ -374,14 +374,14 @@ private:
     } // TemplateRuleFrame
     ~TemplateRuleFrame()
     {
-      stylesheet_.current_mode_ = mode_;
-      stylesheet_.current_generation_ = generation_;
+      stylesheet_.current_mode_.swap(mode_);
+      stylesheet_.current_generation_.swap(generation_);
     } // ~TemplateRuleFrame
 
   private:
     const CompiledStylesheet& stylesheet_;
-    const string_type mode_;
-    const Precedence generation_;
+    string_type mode_;
+    Precedence generation_;
 
     TemplateRuleFrame(const TemplateRuleFrame&);
     TemplateRuleFrame& operator=(const TemplateRuleFrame&);
diff --git a/include/XSLT/impl/xslt_precedence.hpp b/include/XSLT/impl/xslt_precedence.hpp
index e6d905c..9dce4b4 100644
--- a/include/XSLT/impl/xslt_precedence.hpp
+++ b/include/XSLT/impl/xslt_precedence.hpp
@@ -61,6 +61,12 @@ public:
     return *this;
   } // operator=
 
+  void swap(Precedence& rhs)
+  {
+    precedence_.swap(rhs.precedence_);
+    std::swap(children_, rhs.children_);
+  } // swap
+
   bool is_descendant(const Precedence& other) const
   {
     if(other.precedence_.size() <= precedence_.size())
-- 
2.43.0


From b6d5ffdb5e35a00ab79e155e7bd1848a1f54d5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:56 +0000
Subject: [PATCH 49/50] fix: a string value is whole or an exception

A standard output stream takes a failed allocation for an output error
and carries on, so a string-value, an attribute value, comment or
processing instruction content, or the replacement text of an entity
collected in one was silently cut short when memory ran out; and the
XSLT output kept the failed stream.
---
 include/DOM/SAX2DOM/SAX2DOM.hpp     |  1 +
 include/XPath/impl/xpath_object.hpp | 13 ++++++-------
 include/XSLT/impl/xslt_output.hpp   | 12 ++++++------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index d20a218..f3a053b 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -431,6 +431,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
       // massively used.
       // I only noticed myself when I started running the DOM conformance tests
       std::stringstream ss;
+      ss.exceptions(std::ios_base::badbit); // rather than parse a part of it
       ss << "<wrapper>" << string_adaptorT::asStdString(value) << "</wrapper>";
 
       Arabica::SAX::InputSource<stringT, string_adaptorT> is(ss);
diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 1e0a229..e6e2b76 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -450,15 +450,15 @@ string_type nodeStringValue(const DOM::Node<string_type, string_adaptor>& node)
   case DOM::Node_base::DOCUMENT_FRAGMENT_NODE:
   case DOM::Node_base::ELEMENT_NODE:
     {
-      std::basic_ostringstream<typename string_adaptor::value_type> os;
+      string_type value;
       AxisEnumerator<string_type, string_adaptor> ae(node, DESCENDANT);
       while(*ae != 0)
       {
         if(nodeIsText<string_type, string_adaptor>(*ae))
-          os << nodeStringValue(*ae);
+          string_adaptor::append(value, nodeStringValue<string_type, string_adaptor>(*ae));
         ++ae;
       } // while
-      return string_adaptor::construct(os.str().c_str());
+      return value;
     } // case
 
   case DOM::Node_base::ATTRIBUTE_NODE:
@@ -475,10 +475,9 @@ string_type nodeStringValue(const DOM::Node<string_type, string_adaptor>& node)
 	 !nodeIsText<string_type, string_adaptor>(next))
 	return node.getNodeValue();
 
-      std::basic_ostringstream<typename string_adaptor::value_type> os;
-      os << node.getNodeValue() 
-	 << nodeStringValue<string_type, string_adaptor>(next);
-      return string_adaptor::construct(os.str().c_str());
+      string_type value = node.getNodeValue();
+      string_adaptor::append(value, nodeStringValue<string_type, string_adaptor>(next));
+      return value;
     } // case
 
   default:
diff --git a/include/XSLT/impl/xslt_output.hpp b/include/XSLT/impl/xslt_output.hpp
index 7e40036..38ed970 100644
--- a/include/XSLT/impl/xslt_output.hpp
+++ b/include/XSLT/impl/xslt_output.hpp
@@ -161,7 +161,7 @@ public:
     if(pending_attribute_ == -1)
       return;
 
-    atts_.setValue(pending_attribute_, string_adaptor::construct(buffer_.str()));
+    atts_.setValue(pending_attribute_, buffer_);
 
     pending_attribute_ = -1;
   } // end_attribute
@@ -185,7 +185,7 @@ public:
     if(buffering_)
     {
       if(buffering_ == 1)
-        buffer_ << ch;
+        string_adaptor::append(buffer_, ch);
       return;
     } // if ...
 
@@ -224,7 +224,7 @@ public:
 
     if(!text_mode_)
     {
-      string_type comment = escape(string_adaptor::construct(buffer_.str()), SC::double_hyphen, SC::escaped_double_hyphen);
+      string_type comment = escape(buffer_, SC::double_hyphen, SC::escaped_double_hyphen);
       if(string_adaptor::length(comment) && *(string_adaptor::rbegin(comment)) == SC::HYPHEN_MINUS)
         string_adaptor::append(comment, SC::SPACE);
       do_comment(comment);
@@ -248,7 +248,7 @@ public:
 
     if(!text_mode_)
     {
-      string_type data = escape(string_adaptor::construct(buffer_.str()), SC::PIEnd, SC::escaped_pi_end);
+      string_type data = escape(buffer_, SC::PIEnd, SC::escaped_pi_end);
       do_processing_instruction(target_, data);
     } // if ...
   } // end_processing_instruction
@@ -300,7 +300,7 @@ private:
     if(is_buf)
       return true;
 
-    buffer_.str(std::basic_string<typename string_adaptor::value_type>());
+    buffer_ = string_type();
     return false;
   } // push_buffering
 
@@ -397,7 +397,7 @@ private:
   std::stack<QName<string_type, string_adaptor> > element_stack_;
   string_type target_;
   SAX::AttributesImpl<string_type, string_adaptor> atts_;
-  std::basic_stringstream<typename string_adaptor::value_type> buffer_;
+  string_type buffer_;
   NamespaceStack<string_type, string_adaptor> namespaceStack_;
 }; // class Output
 
-- 
2.43.0


From 0f4340a7718c5d5377f15c8262b89ae61a3479a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:47 +0000
Subject: [PATCH 50/50] fix: leaving a template rule, with strings that have no
 swap()

---
 include/XSLT/impl/xslt_compiled_stylesheet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XSLT/impl/xslt_compiled_stylesheet.hpp b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
index b788e66..3675e48 100644
--- a/include/XSLT/impl/xslt_compiled_stylesheet.hpp
+++ b/include/XSLT/impl/xslt_compiled_stylesheet.hpp
@@ -374,7 +374,7 @@ private:
     } // TemplateRuleFrame
     ~TemplateRuleFrame()
     {
-      stylesheet_.current_mode_.swap(mode_);
+      std::swap(stylesheet_.current_mode_, mode_);
       stylesheet_.current_generation_.swap(generation_);
     } // ~TemplateRuleFrame
 
-- 
2.43.0

