From 2a32d7501ca1783c16b8d0664846e3e09e15114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 01/47] fix: read and replace the catalogue under its lock in
 exports and imports

GetTranslations and GetCtxTranslations sized their result from the map before
taking the lock; MarshalText, MarshalBinary and UnmarshalBinary took no lock.
---
 domain.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/domain.go b/domain.go
index 328b255..e634793 100644
--- a/domain.go
+++ b/domain.go
@@ -546,11 +546,11 @@ func (do *Domain) IsTranslatedNC(str string, n int, ctx string) bool {
 
 // GetTranslations returns a copy of every translation in the domain. It does not support contexts.
 func (do *Domain) GetTranslations() map[string]*Translation {
-	all := make(map[string]*Translation, len(do.translations))
-
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
+	all := make(map[string]*Translation, len(do.translations))
+
 	for msgID, trans := range do.translations {
 		newTrans := NewTranslation()
 		newTrans.ID = trans.ID
@@ -571,11 +571,11 @@ func (do *Domain) GetTranslations() map[string]*Translation {
 
 // GetCtxTranslations returns a copy of every translation in the domain with context
 func (do *Domain) GetCtxTranslations() map[string]map[string]*Translation {
-	all := make(map[string]map[string]*Translation, len(do.contextTranslations))
-
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
+	all := make(map[string]map[string]*Translation, len(do.contextTranslations))
+
 	for ctx, translations := range do.contextTranslations {
 		for msgID, trans := range translations {
 			newTrans := NewTranslation()
@@ -627,6 +627,10 @@ func extractPathAndLine(ref string) (string, int) {
 // MarshalText implements encoding.TextMarshaler interface
 // Assists round-trip of POT/PO content
 func (do *Domain) MarshalText() ([]byte, error) {
+	// Sync read
+	do.trMutex.RLock()
+	defer do.trMutex.RUnlock()
+
 	var buf bytes.Buffer
 	if len(do.headerComments) > 0 {
 		buf.WriteString(strings.Join(do.headerComments, "\n"))
@@ -823,6 +827,10 @@ func EscapeSpecialCharacters(s string) string {
 
 // MarshalBinary implements encoding.BinaryMarshaler interface
 func (do *Domain) MarshalBinary() ([]byte, error) {
+	// Sync read
+	do.trMutex.RLock()
+	defer do.trMutex.RUnlock()
+
 	obj := new(TranslatorEncoding)
 	obj.Headers = do.Headers
 	obj.Language = do.Language
@@ -850,6 +858,11 @@ func (do *Domain) UnmarshalBinary(data []byte) error {
 		return err
 	}
 
+	do.trMutex.Lock()
+	do.pluralMutex.Lock()
+	defer do.trMutex.Unlock()
+	defer do.pluralMutex.Unlock()
+
 	do.Headers = obj.Headers
 	do.Language = obj.Language
 	do.PluralForms = obj.PluralForms
-- 
2.43.0


From 1b7475881e4e4109e2d734ed2a8442450cf57c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 02/47] fix: set the custom plural resolver under the plural
 lock

---
 domain.go | 2 ++
 po.go     | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/domain.go b/domain.go
index e634793..e77542a 100644
--- a/domain.go
+++ b/domain.go
@@ -102,7 +102,9 @@ func NewDomain() *Domain {
 
 // SetPluralResolver sets a custom plural resolver function
 func (do *Domain) SetPluralResolver(f func(int) int) {
+	do.pluralMutex.Lock()
 	do.customPluralResolver = f
+	do.pluralMutex.Unlock()
 }
 
 func (do *Domain) pluralForm(n int) int {
diff --git a/po.go b/po.go
index e70eb87..8b00825 100644
--- a/po.go
+++ b/po.go
@@ -94,7 +94,7 @@ func (po *Po) GetRefs(str string) []string {
 
 // SetPluralResolver sets the plural resolver function
 func (po *Po) SetPluralResolver(f func(int) int) {
-	po.domain.customPluralResolver = f
+	po.domain.SetPluralResolver(f)
 }
 
 // Set translation
-- 
2.43.0


From 5b15ae9d0ac161ea1b8b3b9021704d8c417729a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 03/47] fix: SetN and SetNC pick the plural form in the same
 critical section that stores the string

A Parse between the two steps stored the string under an index of the old rule.
---
 domain.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/domain.go b/domain.go
index e77542a..111b924 100644
--- a/domain.go
+++ b/domain.go
@@ -112,6 +112,11 @@ func (do *Domain) pluralForm(n int) int {
 	do.pluralMutex.RLock()
 	defer do.pluralMutex.RUnlock()
 
+	return do.evalPluralForm(n)
+}
+
+// evalPluralForm returns the plural form for n. The caller holds pluralMutex.
+func (do *Domain) evalPluralForm(n int) int {
 	// Failure fallback
 	if do.pluralforms == nil {
 		if do.customPluralResolver != nil {
@@ -304,14 +309,14 @@ func (do *Domain) Append(b []byte, str string, vars ...interface{}) []byte {
 
 // SetN sets the (N)th plural form for the given string
 func (do *Domain) SetN(id, plural string, n int, str string) {
-	// Get plural form _before_ lock down
-	pluralForm := do.pluralForm(n)
-
 	do.trMutex.Lock()
 	do.pluralMutex.Lock()
 	defer do.trMutex.Unlock()
 	defer do.pluralMutex.Unlock()
 
+	// The plural form has to come from the same rule the catalogue has when the string is stored
+	pluralForm := do.evalPluralForm(n)
+
 	if trans, ok := do.translations[id]; ok {
 		trans.SetN(pluralForm, str)
 	} else {
@@ -431,14 +436,14 @@ func (do *Domain) AppendC(b []byte, str, ctx string, vars ...interface{}) []byte
 
 // SetNC sets the (N)th plural form for the given string in the given context
 func (do *Domain) SetNC(id, plural, ctx string, n int, str string) {
-	// Get plural form _before_ lock down
-	pluralForm := do.pluralForm(n)
-
 	do.trMutex.Lock()
 	do.pluralMutex.Lock()
 	defer do.trMutex.Unlock()
 	defer do.pluralMutex.Unlock()
 
+	// The plural form has to come from the same rule the catalogue has when the string is stored
+	pluralForm := do.evalPluralForm(n)
+
 	if context, ok := do.contextTranslations[ctx]; ok {
 		if trans, hasTrans := context[id]; hasTrans {
 			trans.SetN(pluralForm, str)
-- 
2.43.0


From fa03a30aa9b8f59b396c395ab9dbeb9936096568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 04/47] fix: plural lookups fall back to the caller's plural
 when the stored message has none

GetN, GetNC, AppendN and AppendNC answered with an empty string.
---
 domain.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/domain.go b/domain.go
index 111b924..191a4e8 100644
--- a/domain.go
+++ b/domain.go
@@ -337,7 +337,10 @@ func (do *Domain) GetN(str, plural string, n int, vars ...interface{}) string {
 
 	if do.translations != nil {
 		if _, ok := do.translations[str]; ok {
-			return FormatString(do.translations[str].GetN(do.pluralForm(n)), vars...)
+			// A message without plural has nothing to offer for a missing form
+			if tr := do.translations[str].GetN(do.pluralForm(n)); tr != "" {
+				return FormatString(tr, vars...)
+			}
 		}
 	}
 
@@ -357,7 +360,10 @@ func (do *Domain) AppendN(b []byte, str, plural string, n int, vars ...interface
 
 	if do.translations != nil {
 		if _, ok := do.translations[str]; ok {
-			return Appendf(b, do.translations[str].GetN(do.pluralForm(n)), vars...)
+			// A message without plural has nothing to offer for a missing form
+			if tr := do.translations[str].GetN(do.pluralForm(n)); tr != "" {
+				return Appendf(b, tr, vars...)
+			}
 		}
 	}
 
@@ -473,7 +479,10 @@ func (do *Domain) GetNC(str, plural string, n int, ctx string, vars ...interface
 		if _, ok := do.contextTranslations[ctx]; ok {
 			if do.contextTranslations[ctx] != nil {
 				if _, ok := do.contextTranslations[ctx][str]; ok {
-					return FormatString(do.contextTranslations[ctx][str].GetN(do.pluralForm(n)), vars...)
+					// A message without plural has nothing to offer for a missing form
+					if tr := do.contextTranslations[ctx][str].GetN(do.pluralForm(n)); tr != "" {
+						return FormatString(tr, vars...)
+					}
 				}
 			}
 		}
@@ -495,7 +504,10 @@ func (do *Domain) AppendNC(b []byte, str, plural string, n int, ctx string, vars
 		if _, ok := do.contextTranslations[ctx]; ok {
 			if do.contextTranslations[ctx] != nil {
 				if _, ok := do.contextTranslations[ctx][str]; ok {
-					return Appendf(b, do.contextTranslations[ctx][str].GetN(do.pluralForm(n)), vars...)
+					// A message without plural has nothing to offer for a missing form
+					if tr := do.contextTranslations[ctx][str].GetN(do.pluralForm(n)); tr != "" {
+						return Appendf(b, tr, vars...)
+					}
 				}
 			}
 		}
-- 
2.43.0


From a7a671d11557ca40e932a6fdffa3507655e2aa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 05/47] fix: SetN and SetNC keep the plural id

SetNC never stored it and SetN not on an existing message, so MarshalText
dropped every plural form but the first.
---
 domain.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/domain.go b/domain.go
index 191a4e8..a78937a 100644
--- a/domain.go
+++ b/domain.go
@@ -318,6 +318,9 @@ func (do *Domain) SetN(id, plural string, n int, str string) {
 	pluralForm := do.evalPluralForm(n)
 
 	if trans, ok := do.translations[id]; ok {
+		if trans.PluralID == "" {
+			trans.PluralID = plural
+		}
 		trans.SetN(pluralForm, str)
 	} else {
 		trans = NewTranslation()
@@ -452,16 +455,21 @@ func (do *Domain) SetNC(id, plural, ctx string, n int, str string) {
 
 	if context, ok := do.contextTranslations[ctx]; ok {
 		if trans, hasTrans := context[id]; hasTrans {
+			if trans.PluralID == "" {
+				trans.PluralID = plural
+			}
 			trans.SetN(pluralForm, str)
 		} else {
 			trans = NewTranslation()
 			trans.ID = id
+			trans.PluralID = plural
 			trans.SetN(pluralForm, str)
 			context[id] = trans
 		}
 	} else {
 		trans := NewTranslation()
 		trans.ID = id
+		trans.PluralID = plural
 		trans.SetN(pluralForm, str)
 		do.contextTranslations[ctx] = map[string]*Translation{
 			id: trans,
-- 
2.43.0


From 12a90919306d7ba70b0951710be8876c0b1fae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 06/47] fix: SetRefs marks an existing message as current

DropStaleTranslations dropped it although SetRefs had just been called.
---
 domain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain.go b/domain.go
index a78937a..4367c42 100644
--- a/domain.go
+++ b/domain.go
@@ -234,7 +234,7 @@ func (do *Domain) SetRefs(str string, refs []string) {
 	defer do.pluralMutex.Unlock()
 
 	if trans, ok := do.translations[str]; ok {
-		trans.Refs = refs
+		trans.SetRefs(refs)
 	} else {
 		trans = NewTranslation()
 		trans.ID = str
-- 
2.43.0


From 8b1699161956f8ca26ff5fea614d4b23d9450da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 07/47] fix: a message of an MO file without plural has no
 plural id

The message id itself was taken for it.
---
 mo.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mo.go b/mo.go
index 389deba..27b31e0 100644
--- a/mo.go
+++ b/mo.go
@@ -290,12 +290,11 @@ func (mo *Mo) addTranslation(msgid, msgstr []byte) {
 	dd := bytes.Split(msgid, []byte(NulSeparator))
 	if len(dd) > 1 {
 		msgid = dd[0]
-		dd = dd[1:]
+		msgidPlural = bytes.Join(dd[1:], []byte(NulSeparator))
 	}
 
 	translation.ID = string(msgid)
 
-	msgidPlural = bytes.Join(dd, []byte(NulSeparator))
 	if len(msgidPlural) > 0 {
 		translation.PluralID = string(msgidPlural)
 	}
-- 
2.43.0


From 977054ec58ccba3969320d8f2749f64766c51f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 08/47] fix: a truncated or corrupt MO file is refused

String tables and strings outside the file led to a huge allocation, to a panic
on a negative length, or to strings padded with NUL bytes.
---
 mo.go | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/mo.go b/mo.go
index 27b31e0..841c9a7 100644
--- a/mo.go
+++ b/mo.go
@@ -203,6 +203,14 @@ func (mo *Mo) Parse(buf []byte) {
 		// return fmt.Errorf("gettext: %v", "invalid version number")
 	}
 
+	// Both string tables have to lie within the file
+	size := uint64(len(buf))
+	if uint64(header.MsgIDOffset)+8*uint64(header.MsgIDCount) > size ||
+		uint64(header.MsgStrOffset)+8*uint64(header.MsgIDCount) > size {
+		return
+		// return fmt.Errorf("gettext: %v", "truncated file")
+	}
+
 	msgIDStart := make([]uint32, header.MsgIDCount)
 	msgIDLen := make([]uint32, header.MsgIDCount)
 	if _, err := r.Seek(int64(header.MsgIDOffset), 0); err != nil {
@@ -220,8 +228,8 @@ func (mo *Mo) Parse(buf []byte) {
 		}
 	}
 
-	msgStrStart := make([]int32, header.MsgIDCount)
-	msgStrLen := make([]int32, header.MsgIDCount)
+	msgStrStart := make([]uint32, header.MsgIDCount)
+	msgStrLen := make([]uint32, header.MsgIDCount)
 	if _, err := r.Seek(int64(header.MsgStrOffset), 0); err != nil {
 		return
 		// return fmt.Errorf("gettext: %v", err)
@@ -237,26 +245,17 @@ func (mo *Mo) Parse(buf []byte) {
 		}
 	}
 
+	// Every string has to lie within the file, or none is taken
 	for i := 0; i < int(header.MsgIDCount); i++ {
-		if _, err := r.Seek(int64(msgIDStart[i]), 0); err != nil {
-			return
-			// return fmt.Errorf("gettext: %v", err)
-		}
-		msgIDData := make([]byte, msgIDLen[i])
-		if _, err := r.Read(msgIDData); err != nil {
+		if uint64(msgIDStart[i])+uint64(msgIDLen[i]) > size || uint64(msgStrStart[i])+uint64(msgStrLen[i]) > size {
 			return
-			// return fmt.Errorf("gettext: %v", err)
+			// return fmt.Errorf("gettext: %v", "truncated file")
 		}
+	}
 
-		if _, err := r.Seek(int64(msgStrStart[i]), 0); err != nil {
-			return
-			// return fmt.Errorf("gettext: %v", err)
-		}
-		msgStrData := make([]byte, msgStrLen[i])
-		if _, err := r.Read(msgStrData); err != nil {
-			return
-			// return fmt.Errorf("gettext: %v", err)
-		}
+	for i := 0; i < int(header.MsgIDCount); i++ {
+		msgIDData := buf[msgIDStart[i] : uint64(msgIDStart[i])+uint64(msgIDLen[i])]
+		msgStrData := buf[msgStrStart[i] : uint64(msgStrStart[i])+uint64(msgStrLen[i])]
 
 		if len(msgIDData) == 0 {
 			mo.addTranslation(msgIDData, msgStrData)
-- 
2.43.0


From 3dc24733f0deae2d47d3c34ffccf0a3b7e75ca66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 09/47] fix: a catalogue restored from its binary form works
 like the original

The plural rule was not compiled for translators of a Locale, a rule of the
previous contents stayed in force, maps that gob leaves out were nil (Set and
Parse then panicked) and the public header members stayed empty.
---
 domain.go      | 21 +++++++++++++++++++--
 mo.go          | 13 ++++++++++++-
 po.go          | 13 ++++++++++++-
 translation.go |  8 ++++++++
 translator.go  | 13 ++++++-------
 5 files changed, 57 insertions(+), 11 deletions(-)

diff --git a/domain.go b/domain.go
index 4367c42..343b8d5 100644
--- a/domain.go
+++ b/domain.go
@@ -890,6 +890,13 @@ func (do *Domain) UnmarshalBinary(data []byte) error {
 	defer do.trMutex.Unlock()
 	defer do.pluralMutex.Unlock()
 
+	do.restore(obj)
+
+	return nil
+}
+
+// restore replaces the contents of the domain with decoded ones. The caller holds both locks.
+func (do *Domain) restore(obj *TranslatorEncoding) {
 	do.Headers = obj.Headers
 	do.Language = obj.Language
 	do.PluralForms = obj.PluralForms
@@ -898,9 +905,19 @@ func (do *Domain) UnmarshalBinary(data []byte) error {
 	do.translations = obj.Translations
 	do.contextTranslations = obj.Contexts
 
+	// Gob leaves out empty maps
+	if do.Headers == nil {
+		do.Headers = make(HeaderMap)
+	}
+	if do.translations == nil {
+		do.translations = make(map[string]*Translation)
+	}
+	if do.contextTranslations == nil {
+		do.contextTranslations = make(map[string]map[string]*Translation)
+	}
+
+	do.pluralforms = nil
 	if expr, err := plurals.Compile(do.plural); err == nil {
 		do.pluralforms = expr
 	}
-
-	return nil
 }
diff --git a/mo.go b/mo.go
index 841c9a7..db374f3 100644
--- a/mo.go
+++ b/mo.go
@@ -142,7 +142,18 @@ func (mo *Mo) MarshalBinary() ([]byte, error) {
 
 // UnmarshalBinary unmarshals the Mo object from a binary format
 func (mo *Mo) UnmarshalBinary(data []byte) error {
-	return mo.domain.UnmarshalBinary(data)
+	if err := mo.domain.UnmarshalBinary(data); err != nil {
+		return err
+	}
+
+	// set values on this struct, as Parse does
+	mo.domain.trMutex.Lock()
+	defer mo.domain.trMutex.Unlock()
+	mo.Language = mo.domain.Language
+	mo.PluralForms = mo.domain.PluralForms
+	mo.Headers = mo.domain.Headers
+
+	return nil
 }
 
 // ParseFile loads the translations specified in the provided file, in the GNU gettext .mo format
diff --git a/po.go b/po.go
index 8b00825..9b42c5a 100644
--- a/po.go
+++ b/po.go
@@ -189,7 +189,18 @@ func (po *Po) MarshalBinary() ([]byte, error) {
 
 // UnmarshalBinary unmarshals the Po object from binary
 func (po *Po) UnmarshalBinary(data []byte) error {
-	return po.domain.UnmarshalBinary(data)
+	if err := po.domain.UnmarshalBinary(data); err != nil {
+		return err
+	}
+
+	// set values on this struct, as Parse does
+	po.domain.trMutex.Lock()
+	defer po.domain.trMutex.Unlock()
+	po.Language = po.domain.Language
+	po.PluralForms = po.domain.PluralForms
+	po.Headers = po.domain.Headers
+
+	return nil
 }
 
 // ParseFile loads the translations from a file
diff --git a/translation.go b/translation.go
index 2aa42f8..1940efb 100644
--- a/translation.go
+++ b/translation.go
@@ -43,6 +43,10 @@ func (t *Translation) SetRefs(refs []string) {
 
 // Set sets the string of the translation
 func (t *Translation) Set(str string) {
+	if t.Trs == nil {
+		// Gob leaves out empty maps
+		t.Trs = make(map[int]string)
+	}
 	t.Trs[0] = str
 	t.dirty = true
 }
@@ -62,6 +66,10 @@ func (t *Translation) Get() string {
 
 // SetN sets the string of the plural translation
 func (t *Translation) SetN(n int, str string) {
+	if t.Trs == nil {
+		// Gob leaves out empty maps
+		t.Trs = make(map[int]string)
+	}
 	t.Trs[n] = str
 	t.dirty = true
 }
diff --git a/translator.go b/translator.go
index e32e3ab..4ade119 100644
--- a/translator.go
+++ b/translator.go
@@ -64,13 +64,12 @@ type TranslatorEncoding struct {
 func (te *TranslatorEncoding) GetTranslator() Translator {
 	po := NewPo()
 	po.domain = NewDomain()
-	po.domain.Headers = te.Headers
-	po.domain.Language = te.Language
-	po.domain.PluralForms = te.PluralForms
-	po.domain.nplurals = te.Nplurals
-	po.domain.plural = te.Plural
-	po.domain.translations = te.Translations
-	po.domain.contextTranslations = te.Contexts
+	po.domain.restore(te)
+
+	// set values on the Po struct too, as Parse does
+	po.Language = po.domain.Language
+	po.PluralForms = po.domain.PluralForms
+	po.Headers = po.domain.Headers
 
 	return po
 }
-- 
2.43.0


From 8c5490d06cd9dba6053fc497cded4030042a2e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 10/47] fix: export, restore and search a Locale under its lock

MarshalBinary, UnmarshalBinary, AddDomain and GetActualLanguage used the fields
without it, and a restore that failed half-way left a mixture behind.
---
 locale.go | 62 +++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/locale.go b/locale.go
index 381e560..996152a 100644
--- a/locale.go
+++ b/locale.go
@@ -91,25 +91,27 @@ func NewLocaleFSWithPath(l string, filesystem fs.FS, p string) *Locale {
 }
 
 func (l *Locale) findExt(dom, ext string) string {
-	filename := path.Join(l.path, l.lang, "LC_MESSAGES", dom+"."+ext)
+	base, lang := l.location()
+
+	filename := path.Join(base, lang, "LC_MESSAGES", dom+"."+ext)
 	if l.fileExists(filename) {
 		return filename
 	}
 
-	if len(l.lang) > 2 {
-		filename = path.Join(l.path, l.lang[:2], "LC_MESSAGES", dom+"."+ext)
+	if len(lang) > 2 {
+		filename = path.Join(base, lang[:2], "LC_MESSAGES", dom+"."+ext)
 		if l.fileExists(filename) {
 			return filename
 		}
 	}
 
-	filename = path.Join(l.path, l.lang, dom+"."+ext)
+	filename = path.Join(base, lang, dom+"."+ext)
 	if l.fileExists(filename) {
 		return filename
 	}
 
-	if len(l.lang) > 2 {
-		filename = path.Join(l.path, l.lang[:2], dom+"."+ext)
+	if len(lang) > 2 {
+		filename = path.Join(base, lang[:2], dom+"."+ext)
 		if l.fileExists(filename) {
 			return filename
 		}
@@ -118,34 +120,42 @@ func (l *Locale) findExt(dom, ext string) string {
 	return ""
 }
 
+// location returns the path and language of the locale, which UnmarshalBinary can replace.
+func (l *Locale) location() (string, string) {
+	l.RLock()
+	defer l.RUnlock()
+	return l.path, l.lang
+}
+
 // GetActualLanguage inspects the filesystem and decides whether to strip
 // a CC part of the ll_CC locale string.
 func (l *Locale) GetActualLanguage(dom string) string {
+	base, lang := l.location()
 	extensions := []string{"mo", "po"}
 	var fp string
 	for _, ext := range extensions {
 		// 'll' (or 'll_CC') exists, and it was specified as-is
-		fp = path.Join(l.path, l.lang, "LC_MESSAGES", dom+"."+ext)
+		fp = path.Join(base, lang, "LC_MESSAGES", dom+"."+ext)
 		if l.fileExists(fp) {
-			return l.lang
+			return lang
 		}
 		// 'll' exists, but 'll_CC' was specified
-		if len(l.lang) > 2 {
-			fp = path.Join(l.path, l.lang[:2], "LC_MESSAGES", dom+"."+ext)
+		if len(lang) > 2 {
+			fp = path.Join(base, lang[:2], "LC_MESSAGES", dom+"."+ext)
 			if l.fileExists(fp) {
-				return l.lang[:2]
+				return lang[:2]
 			}
 		}
 		// 'll' (or 'll_CC') exists outside of LC_category, and it was specified as-is
-		fp = path.Join(l.path, l.lang, dom+"."+ext)
+		fp = path.Join(base, lang, dom+"."+ext)
 		if l.fileExists(fp) {
-			return l.lang
+			return lang
 		}
 		// 'll' exists outside of LC_category, but 'll_CC' was specified
-		if len(l.lang) > 2 {
-			fp = path.Join(l.path, l.lang[:2], dom+"."+ext)
+		if len(lang) > 2 {
+			fp = path.Join(base, lang[:2], dom+"."+ext)
 			if l.fileExists(fp) {
-				return l.lang[:2]
+				return lang[:2]
 			}
 		}
 	}
@@ -425,6 +435,10 @@ type LocaleEncoding struct {
 
 // MarshalBinary implements encoding BinaryMarshaler interface
 func (l *Locale) MarshalBinary() ([]byte, error) {
+	// Sync read
+	l.RLock()
+	defer l.RUnlock()
+
 	obj := new(LocaleEncoding)
 	obj.DefaultDomain = l.defaultDomain
 	obj.Domains = make(map[string][]byte)
@@ -456,12 +470,8 @@ func (l *Locale) UnmarshalBinary(data []byte) error {
 		return err
 	}
 
-	l.defaultDomain = obj.DefaultDomain
-	l.lang = obj.Lang
-	l.path = obj.Path
-
 	// Decode Domains
-	l.Domains = make(map[string]Translator)
+	domains := make(map[string]Translator)
 	for k, v := range obj.Domains {
 		var tr TranslatorEncoding
 		buff := bytes.NewBuffer(v)
@@ -471,8 +481,16 @@ func (l *Locale) UnmarshalBinary(data []byte) error {
 			return err
 		}
 
-		l.Domains[k] = tr.GetTranslator()
+		domains[k] = tr.GetTranslator()
 	}
 
+	// Replace everything at once, and only when all of it was readable
+	l.Lock()
+	l.defaultDomain = obj.DefaultDomain
+	l.lang = obj.Lang
+	l.path = obj.Path
+	l.Domains = domains
+	l.Unlock()
+
 	return nil
 }
-- 
2.43.0


From a465f0bd085dff5635f2a65ed3ab3077aa360236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 11/47] fix: package functions look for loaded domains under
 the locale's lock

Two concurrent lookups of a domain that was not loaded yet ended the process
with a concurrent map access.
---
 gotext.go | 6 +++---
 locale.go | 8 ++++++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/gotext.go b/gotext.go
index 059403c..4559909 100644
--- a/gotext.go
+++ b/gotext.go
@@ -77,7 +77,7 @@ func loadLocales(rebuildCache bool) {
 	}
 
 	for _, locale := range globalConfig.locales {
-		if _, ok := locale.Domains[globalConfig.domain]; !ok || rebuildCache {
+		if rebuildCache || !locale.hasDomain(globalConfig.domain) {
 			locale.AddDomain(globalConfig.domain)
 		}
 		locale.SetDomain(globalConfig.domain)
@@ -252,7 +252,7 @@ func GetD(dom, str string, vars ...interface{}) string {
 
 	var tr string
 	for i, locale := range globalConfig.locales {
-		if _, ok := locale.Domains[dom]; !ok {
+		if !locale.hasDomain(dom) {
 			locale.AddDomain(dom)
 		}
 		if !locale.IsTranslatedD(dom, str) && i < (len(globalConfig.locales)-1) {
@@ -275,7 +275,7 @@ func GetND(dom, str, plural string, n int, vars ...interface{}) string {
 
 	var tr string
 	for i, locale := range globalConfig.locales {
-		if _, ok := locale.Domains[dom]; !ok {
+		if !locale.hasDomain(dom) {
 			locale.AddDomain(dom)
 		}
 		if !locale.IsTranslatedND(dom, str, n) && i < (len(globalConfig.locales)-1) {
diff --git a/locale.go b/locale.go
index 996152a..a8e4003 100644
--- a/locale.go
+++ b/locale.go
@@ -162,6 +162,14 @@ func (l *Locale) GetActualLanguage(dom string) string {
 	return ""
 }
 
+// hasDomain reports whether the domain is loaded.
+func (l *Locale) hasDomain(dom string) bool {
+	l.RLock()
+	defer l.RUnlock()
+	_, ok := l.Domains[dom]
+	return ok
+}
+
 func (l *Locale) fileExists(filename string) bool {
 	if l.fs != nil {
 		_, err := fs.Stat(l.fs, filename)
-- 
2.43.0


From da47a7775515e42801c6476db8d1b492938a62d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:05 +0000
Subject: [PATCH 12/47] fix: package lookups work before the first Configure

GetDomain indexed an empty list of locales and the default locale was never built.
---
 gotext.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gotext.go b/gotext.go
index 4559909..a53b0b7 100644
--- a/gotext.go
+++ b/gotext.go
@@ -68,7 +68,7 @@ func init() {
 func loadLocales(rebuildCache bool) {
 	globalConfig.Lock()
 
-	if globalConfig.locales == nil || rebuildCache {
+	if len(globalConfig.locales) == 0 || rebuildCache {
 		var locales []*Locale
 		for _, language := range globalConfig.languages {
 			locales = append(locales, NewLocale(globalConfig.library, language))
@@ -90,7 +90,7 @@ func loadLocales(rebuildCache bool) {
 func GetDomain() string {
 	var dom string
 	globalConfig.RLock()
-	if globalConfig.locales != nil {
+	if len(globalConfig.locales) > 0 {
 		// All locales have the same domain
 		dom = globalConfig.locales[0].GetDomain()
 	}
-- 
2.43.0


From 8e71f2a32833c9cc9250454dd312ad86ca9718b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 13/47] fix: context lookups and IsTranslated load a domain on
 first use like the others

Their answer depended on whether GetD or GetND had asked for the domain before.
---
 gotext.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gotext.go b/gotext.go
index a53b0b7..70e40a2 100644
--- a/gotext.go
+++ b/gotext.go
@@ -310,6 +310,9 @@ func GetDC(dom, str, ctx string, vars ...interface{}) string {
 
 	var tr string
 	for i, locale := range globalConfig.locales {
+		if !locale.hasDomain(dom) {
+			locale.AddDomain(dom)
+		}
 		if !locale.IsTranslatedDC(dom, str, ctx) && i < (len(globalConfig.locales)-1) {
 			continue
 		}
@@ -331,6 +334,9 @@ func GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) str
 
 	var tr string
 	for i, locale := range globalConfig.locales {
+		if !locale.hasDomain(dom) {
+			locale.AddDomain(dom)
+		}
 		if !locale.IsTranslatedNDC(dom, str, n, ctx) && i < (len(globalConfig.locales)-1) {
 			continue
 		}
@@ -377,6 +383,9 @@ func IsTranslatedND(dom, str string, n int, langs ...string) bool {
 			if lang != supportedLocale.GetActualLanguage(dom) {
 				continue
 			}
+			if !supportedLocale.hasDomain(dom) {
+				supportedLocale.AddDomain(dom)
+			}
 			return supportedLocale.IsTranslatedND(dom, str, n)
 		}
 	}
@@ -420,6 +429,9 @@ func IsTranslatedNDC(dom, str string, n int, ctx string, langs ...string) bool {
 			if lang != locale.GetActualLanguage(dom) {
 				continue
 			}
+			if !locale.hasDomain(dom) {
+				locale.AddDomain(dom)
+			}
 			return locale.IsTranslatedNDC(dom, str, n, ctx)
 		}
 	}
-- 
2.43.0


From 3f84fddcf3a7583a60a6be97feaf89a64777cc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:18 +0000
Subject: [PATCH 14/47] fix: package IsTranslatedDC asks for the singular form

It passed 0 as the number, which is a plural in most languages.
---
 gotext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gotext.go b/gotext.go
index 70e40a2..e7cdd70 100644
--- a/gotext.go
+++ b/gotext.go
@@ -407,7 +407,7 @@ func IsTranslatedNC(str string, n int, ctx string, langs ...string) bool {
 // IsTranslatedDC reports whether a domain context string is translated in given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedDC(dom, str, ctx string, langs ...string) bool {
-	return IsTranslatedNDC(dom, str, 0, ctx, langs...)
+	return IsTranslatedNDC(dom, str, 1, ctx, langs...)
 }
 
 // IsTranslatedNDC reports whether a plural domain context string is translated in any of given languages.
-- 
2.43.0


From 8e3d4d4b4ba4402691a26bea8cee74c3a7ac0fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 15/47] fix: IsTranslated looks at every given language

It stopped at the first one that has the domain, documented is any of them.
---
 gotext.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gotext.go b/gotext.go
index e7cdd70..ecc9b63 100644
--- a/gotext.go
+++ b/gotext.go
@@ -386,7 +386,9 @@ func IsTranslatedND(dom, str string, n int, langs ...string) bool {
 			if !supportedLocale.hasDomain(dom) {
 				supportedLocale.AddDomain(dom)
 			}
-			return supportedLocale.IsTranslatedND(dom, str, n)
+			if supportedLocale.IsTranslatedND(dom, str, n) {
+				return true
+			}
 		}
 	}
 	return false
@@ -432,7 +434,9 @@ func IsTranslatedNDC(dom, str string, n int, ctx string, langs ...string) bool {
 			if !locale.hasDomain(dom) {
 				locale.AddDomain(dom)
 			}
-			return locale.IsTranslatedNDC(dom, str, n, ctx)
+			if locale.IsTranslatedNDC(dom, str, n, ctx) {
+				return true
+			}
 		}
 	}
 	return false
-- 
2.43.0


From dbeb2129f557523389b72c0eae8511ed6b52ca0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 16/47] fix: AddDomain keeps a loaded domain when its file
 can't be read

The failed reload replaced it with an empty one, which also kept later lookups
from loading the file once it was readable again.
---
 locale.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/locale.go b/locale.go
index a8e4003..1f3ca80 100644
--- a/locale.go
+++ b/locale.go
@@ -187,20 +187,23 @@ func (l *Locale) AddDomain(dom string) {
 	file := l.findExt(dom, "po")
 	if file != "" {
 		poObj = NewPoFS(l.fs)
-		// Parse file.
-		poObj.ParseFile(file)
 	} else {
 		file = l.findExt(dom, "mo")
 		if file != "" {
 			poObj = NewMoFS(l.fs)
-			// Parse file.
-			poObj.ParseFile(file)
 		} else {
 			// fallback return if no file found with
 			return
 		}
 	}
 
+	// Parse file. If it can't be read, a domain loaded before stays as it is.
+	data, err := getFileData(file, l.fs)
+	if err != nil {
+		return
+	}
+	poObj.Parse(data)
+
 	// Save new domain
 	l.Lock()
 
-- 
2.43.0


From b9d1d4d6ac4032b9967d581ee3213ce51e0ec73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 17/47] fix: SetLocales reads the locales under their lock

---
 gotext.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gotext.go b/gotext.go
index ecc9b63..58006c9 100644
--- a/gotext.go
+++ b/gotext.go
@@ -194,12 +194,12 @@ func SetLocales(locales []*Locale) {
 	defer globalConfig.Unlock()
 
 	globalConfig.locales = locales
-	globalConfig.library = locales[0].path
-	globalConfig.domain = locales[0].defaultDomain
+	globalConfig.library, _ = locales[0].location()
+	globalConfig.domain = locales[0].GetDomain()
 
 	var languages []string
 	for _, locale := range locales {
-		languages = append(languages, locale.lang)
+		languages = append(languages, locale.GetLanguage())
 	}
 	globalConfig.languages = languages
 }
-- 
2.43.0


From a76bb1c56267e3271fe2190b3162667bbc89e1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 18/47] fix: a plural rule with a modulus by zero is refused

It compiled, and the first plural lookup panicked with a division by zero.
---
 plurals/compiler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index c28297a..5524bda 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -134,6 +134,9 @@ func compileMod(tokens []string) (math math, err error) {
 	if err != nil {
 		return math, err
 	}
+	if i == 0 {
+		return math, errors.New("modulus by zero")
+	}
 	return mod{value: uint32(i)}, nil
 }
 
-- 
2.43.0


From 901c27afe7d4846237106514c7c0c2907443330b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 19/47] fix: an invalid plural rule no longer leaks goroutines

---
 plurals/compiler.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index 5524bda..bb31baf 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -368,8 +368,13 @@ func tokenize(s string) ([]string, error) {
 	if s[0] == '(' && s[len(s)-1] == ')' {
 		s = s[1 : len(s)-1]
 	}
-	ret := []string{}
+	// Take all chunks first, an early return would leave the sender blocked for ever
+	chunks := []string{}
 	for chunk := range split(s) {
+		chunks = append(chunks, chunk)
+	}
+	ret := []string{}
+	for _, chunk := range chunks {
 		if len(chunk) != 0 {
 			if chunk[0] == '(' && chunk[len(chunk)-1] == ')' {
 				ret = append(ret, chunk)
-- 
2.43.0


From 6d25161afafa86642c11b0ac3f1103c8d416d138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 20/47] fix: Compile reports an error in the last branch of a
 plural rule

It returned a nil expression together with a nil error.
---
 plurals/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index bb31baf..b3b0df2 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -54,7 +54,7 @@ func (ternaryStruct) compile(tokens []string) (expr Expression, err error) {
 	}
 	falseAction, err := compileExpression(strings.Join(actions.Right, ""))
 	if err != nil {
-		return expr, nil
+		return expr, err
 	}
 	return ternary{
 		test:      test,
-- 
2.43.0


From 1eae3b192a9c0806c2ff5de38287b54d33797dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 21/47] fix: plural rules may start and end with different
 parentheses

"(n==1) && (n!=2)" lost the first and the last one.
---
 plurals/compiler.go | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index b3b0df2..792a125 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -353,19 +353,36 @@ func split(s string) <-chan string {
 	return ch
 }
 
+// Reports whether the string starts with a ( and ends with a ) and those two
+// form a matching pair.
+//
+// Eg: (foo) -> true; (foo)(bar) -> false;
+func enclosed(s string) bool {
+	if s[0] != '(' || s[len(s)-1] != ')' {
+		return false
+	}
+	depth := 0
+	for i, char := range s {
+		switch char {
+		case '(':
+			depth++
+		case ')':
+			depth--
+			if depth == 0 && i != len(s)-1 {
+				return false
+			}
+		}
+	}
+	return true
+}
+
 // Tokenizes a string into a list of strings, tokens grouped by parenthesis are
 // not split! If the string starts with ( and ends in ), those are stripped.
 func tokenize(s string) ([]string, error) {
-	/*
-		TODO: Properly detect if the string starts with a ( and ends with a )
-		and that those two form a matching pair.
-
-		Eg: (foo) -> true; (foo)(bar) -> false;
-	*/
 	if len(s) == 0 {
 		return []string{}, nil
 	}
-	if s[0] == '(' && s[len(s)-1] == ')' {
+	if enclosed(s) {
 		s = s[1 : len(s)-1]
 	}
 	// Take all chunks first, an early return would leave the sender blocked for ever
-- 
2.43.0


From 00817021a0a2cb3e0766496121b69a83f48c84f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 22/47] fix: MarshalText writes plural forms in order

They came in the random order of a map.
---
 domain.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/domain.go b/domain.go
index 343b8d5..cfe4982 100644
--- a/domain.go
+++ b/domain.go
@@ -806,7 +806,14 @@ func (do *Domain) MarshalText() ([]byte, error) {
 			buf.WriteString("\nmsgstr \"" + EscapeSpecialCharacters(trans.Trs[0]) + "\"")
 		} else {
 			buf.WriteString("\nmsgid_plural \"" + trans.PluralID + "\"")
-			for i, tr := range trans.Trs {
+			// Plural forms in order, as everything else
+			forms := make([]int, 0, len(trans.Trs))
+			for i := range trans.Trs {
+				forms = append(forms, i)
+			}
+			sort.Ints(forms)
+			for _, i := range forms {
+				tr := trans.Trs[i]
 				buf.WriteString("\nmsgstr[" + EscapeSpecialCharacters(strconv.Itoa(i)) + "] \"" + tr + "\"")
 			}
 		}
-- 
2.43.0


From d868560a347d36f42fffde115754b939f0651a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 23/47] fix: a continued plural form is appended to that form

It was appended to the form numbered one less than the number of forms seen,
which differs when a form is missing or out of order.
---
 domain.go | 7 ++++---
 po.go     | 5 ++++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/domain.go b/domain.go
index cfe4982..0e19715 100644
--- a/domain.go
+++ b/domain.go
@@ -42,9 +42,10 @@ type Domain struct {
 	pluralMutex sync.RWMutex
 
 	// Parsing buffers
-	trBuffer  *Translation
-	ctxBuffer string
-	refBuffer string
+	trBuffer   *Translation
+	ctxBuffer  string
+	refBuffer  string
+	formBuffer int
 
 	customPluralResolver func(int) int
 }
diff --git a/po.go b/po.go
index 9b42c5a..e469215 100644
--- a/po.go
+++ b/po.go
@@ -232,6 +232,7 @@ func (po *Po) Parse(buf []byte) {
 	po.domain.trBuffer = NewTranslation()
 	po.domain.ctxBuffer = ""
 	po.domain.refBuffer = ""
+	po.domain.formBuffer = 0
 
 	state := head
 	for _, l := range lines {
@@ -383,6 +384,7 @@ func (po *Po) parseMessage(l string) {
 
 		// Parse Translation string
 		po.domain.trBuffer.Trs[i], _ = strconv.Unquote(strings.TrimSpace(l[idx+1:]))
+		po.domain.formBuffer = i
 
 		// Loop
 		return
@@ -390,6 +392,7 @@ func (po *Po) parseMessage(l string) {
 
 	// Save single Translation form under 0 index
 	po.domain.trBuffer.Trs[0], _ = strconv.Unquote(l)
+	po.domain.formBuffer = 0
 }
 
 // parseString takes a well formatted string without prefix
@@ -400,7 +403,7 @@ func (po *Po) parseString(l string, state parseState) {
 	switch state {
 	case msgStr:
 		// Append to last Translation found
-		po.domain.trBuffer.Trs[len(po.domain.trBuffer.Trs)-1] += clean
+		po.domain.trBuffer.Trs[po.domain.formBuffer] += clean
 
 	case msgID:
 		// Multiline msgid - Append to current id
-- 
2.43.0


From 4b3fcb70c1ac3053da83a2c15b8e31d8aafc8b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 24/47] fix: MarshalText escapes every string

Plural ids, plural forms and headers were not escaped at all, and a leading or
doubled quotation mark or a backslash in the others was not either.
---
 domain.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/domain.go b/domain.go
index 0e19715..37dd24e 100644
--- a/domain.go
+++ b/domain.go
@@ -713,7 +713,7 @@ func (do *Domain) MarshalText() ([]byte, error) {
 		v := do.Headers[k]
 
 		for _, value := range v {
-			buf.WriteString("\n\"" + k + ": " + value + "\\n\"")
+			buf.WriteString("\n\"" + escapeText(k+": "+value) + "\\n\"")
 		}
 	}
 
@@ -798,15 +798,15 @@ func (do *Domain) MarshalText() ([]byte, error) {
 		}
 
 		if ref.context == "" {
-			buf.WriteString("\nmsgid \"" + EscapeSpecialCharacters(trans.ID) + "\"")
+			buf.WriteString("\nmsgid \"" + escapeText(trans.ID) + "\"")
 		} else {
-			buf.WriteString("\nmsgctxt \"" + EscapeSpecialCharacters(ref.context) + "\"\nmsgid \"" + EscapeSpecialCharacters(trans.ID) + "\"")
+			buf.WriteString("\nmsgctxt \"" + escapeText(ref.context) + "\"\nmsgid \"" + escapeText(trans.ID) + "\"")
 		}
 
 		if trans.PluralID == "" {
-			buf.WriteString("\nmsgstr \"" + EscapeSpecialCharacters(trans.Trs[0]) + "\"")
+			buf.WriteString("\nmsgstr \"" + escapeText(trans.Trs[0]) + "\"")
 		} else {
-			buf.WriteString("\nmsgid_plural \"" + trans.PluralID + "\"")
+			buf.WriteString("\nmsgid_plural \"" + escapeText(trans.PluralID) + "\"")
 			// Plural forms in order, as everything else
 			forms := make([]int, 0, len(trans.Trs))
 			for i := range trans.Trs {
@@ -815,7 +815,7 @@ func (do *Domain) MarshalText() ([]byte, error) {
 			sort.Ints(forms)
 			for _, i := range forms {
 				tr := trans.Trs[i]
-				buf.WriteString("\nmsgstr[" + EscapeSpecialCharacters(strconv.Itoa(i)) + "] \"" + tr + "\"")
+				buf.WriteString("\nmsgstr[" + strconv.Itoa(i) + "] \"" + escapeText(tr) + "\"")
 			}
 		}
 	}
@@ -823,6 +823,11 @@ func (do *Domain) MarshalText() ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
+// escapeText escapes a string as it is kept in memory, where no character is escaped yet
+func escapeText(s string) string {
+	return EscapeSpecialCharacters(strings.NewReplacer("\\", "\\\\", "\"", "\\\"").Replace(s))
+}
+
 // EscapeSpecialCharacters escapes special characters in a string
 func EscapeSpecialCharacters(s string) string {
 	s = regexp.MustCompile(`([^\\])(")`).ReplaceAllString(s, "$1\\\"") // Escape non-escaped double quotation marks
-- 
2.43.0


From 439654511460c71410a8bd4abdf131dce3db0545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:08 +0000
Subject: [PATCH 25/47] fix: xgotext reports an error when closing an output
 file

---
 cli/xgotext/parser/domain.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cli/xgotext/parser/domain.go b/cli/xgotext/parser/domain.go
index 35146ad..ebb9c01 100644
--- a/cli/xgotext/parser/domain.go
+++ b/cli/xgotext/parser/domain.go
@@ -166,13 +166,16 @@ func (d *Domain) Dump() string {
 }
 
 // Save domain to file
-func (d *Domain) Save(path string) error {
+func (d *Domain) Save(path string) (err error) {
 	file, err := os.Create(path)
 	if err != nil {
 		return fmt.Errorf("failed to domain: %v", err)
 	}
 	defer func() {
-		_ = file.Close()
+		// a failing close means that the file may be incomplete
+		if cerr := file.Close(); err == nil {
+			err = cerr
+		}
 	}()
 
 	// write header
-- 
2.43.0


From 2eb550edfad4e8cfbfc807827db2006000bb584d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 26/47] fix: xgotext keeps the plural of a message seen first
 without one

Whether the plural was written depended on the order of the calls.
---
 cli/xgotext/parser/domain.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cli/xgotext/parser/domain.go b/cli/xgotext/parser/domain.go
index ebb9c01..8535e02 100644
--- a/cli/xgotext/parser/domain.go
+++ b/cli/xgotext/parser/domain.go
@@ -25,6 +25,14 @@ func (t *Translation) AddLocations(locations []string) {
 	}
 }
 
+// merge another occurrence of the same message
+func (t *Translation) merge(other *Translation) {
+	t.AddLocations(other.SourceLocations)
+	if t.MsgIDPlural == "" {
+		t.MsgIDPlural = other.MsgIDPlural
+	}
+}
+
 // Dump translation as string
 func (t *Translation) Dump() string {
 	data := make([]string, 0, len(t.SourceLocations)+5)
@@ -130,7 +138,7 @@ func (d *Domain) AddTranslation(translation *Translation) {
 
 	if translation.Context == "" {
 		if t, ok := d.Translations[translation.MsgID]; ok {
-			t.AddLocations(translation.SourceLocations)
+			t.merge(translation)
 		} else {
 			d.Translations[translation.MsgID] = translation
 		}
@@ -140,7 +148,7 @@ func (d *Domain) AddTranslation(translation *Translation) {
 		}
 
 		if t, ok := d.ContextTranslations[translation.Context][translation.MsgID]; ok {
-			t.AddLocations(translation.SourceLocations)
+			t.merge(translation)
 		} else {
 			d.ContextTranslations[translation.Context][translation.MsgID] = translation
 		}
-- 
2.43.0


From 1a0487742f5a54216e2b199c16323dabdef2026d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 27/47] fix: xgotext skips calls whose domain is not a string
 literal

It ended with a nil dereference instead.
---
 cli/xgotext/parser/gofile.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cli/xgotext/parser/gofile.go b/cli/xgotext/parser/gofile.go
index 9e93dbc..476a2ae 100644
--- a/cli/xgotext/parser/gofile.go
+++ b/cli/xgotext/parser/gofile.go
@@ -155,6 +155,11 @@ func (g *GoFile) ParseGetter(def GetterDef, args []*ast.BasicLit, pos string) {
 	// get domain
 	var domain string
 	if def.Domain != -1 {
+		// Domain must be a string
+		if args[def.Domain] == nil || args[def.Domain].Kind != token.STRING {
+			log.Printf("ERR: Unsupported call at %s (Domain not a string)", pos)
+			return
+		}
 		domain, _ = strconv.Unquote(args[def.Domain].Value)
 	}
 
-- 
2.43.0


From 5abbf4c6ea0b397c30adf6d71a9184a768492866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 28/47] fix: xgotext writes contexts as PO strings

A raw string literal was copied to the output as it stands in the source.
---
 cli/xgotext/parser/gofile.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/xgotext/parser/gofile.go b/cli/xgotext/parser/gofile.go
index 476a2ae..72c0cd4 100644
--- a/cli/xgotext/parser/gofile.go
+++ b/cli/xgotext/parser/gofile.go
@@ -189,7 +189,8 @@ func (g *GoFile) ParseGetter(def GetterDef, args []*ast.BasicLit, pos string) {
 			log.Printf("ERR: Unsupported call at %s (Context not a string)", pos)
 			return
 		}
-		trans.Context = args[def.Context].Value
+		context, _ := strconv.Unquote(args[def.Context].Value)
+		trans.Context = formatMultiline(fixSpecialChars(context))
 	}
 
 	g.Data.AddTranslation(domain, &trans)
-- 
2.43.0


From 812bb42ed8f1c078ee37588dddc1230e0f06c405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 29/47] fix: a second package tree parsed in one process is not
 cut short by the first

---
 cli/xgotext/parser/pkg-tree/golang.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cli/xgotext/parser/pkg-tree/golang.go b/cli/xgotext/parser/pkg-tree/golang.go
index d66e351..9497c9e 100644
--- a/cli/xgotext/parser/pkg-tree/golang.go
+++ b/cli/xgotext/parser/pkg-tree/golang.go
@@ -77,6 +77,8 @@ func loadPackage(name string) (*packages.Package, error) {
 }
 
 func filterPkgs(pkg *packages.Package) []*packages.Package {
+	// packages of an earlier call must not hide those of this one
+	pkgCache = make(map[string]*packages.Package)
 	result := filterPkgsRec(pkg)
 	return result
 }
-- 
2.43.0


From 4c4e43b59ad510dcf2cb588a581eee6fbfae0982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 30/47] fix: IsTranslated knows a locale by its configured
 language too

---
 gotext.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gotext.go b/gotext.go
index 58006c9..6196d48 100644
--- a/gotext.go
+++ b/gotext.go
@@ -380,7 +380,7 @@ func IsTranslatedND(dom, str string, n int, langs ...string) bool {
 		lang = SimplifiedLocale(lang)
 
 		for _, supportedLocale := range globalConfig.locales {
-			if lang != supportedLocale.GetActualLanguage(dom) {
+			if lang != supportedLocale.GetLanguage() && lang != supportedLocale.GetActualLanguage(dom) {
 				continue
 			}
 			if !supportedLocale.hasDomain(dom) {
@@ -428,7 +428,7 @@ func IsTranslatedNDC(dom, str string, n int, ctx string, langs ...string) bool {
 		lang = SimplifiedLocale(lang)
 
 		for _, locale := range globalConfig.locales {
-			if lang != locale.GetActualLanguage(dom) {
+			if lang != locale.GetLanguage() && lang != locale.GetActualLanguage(dom) {
 				continue
 			}
 			if !locale.hasDomain(dom) {
-- 
2.43.0


From 24684beb98236c72a456b6c8e2ffb28e4f4ae8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:11 +0000
Subject: [PATCH 31/47] fix: a truncated or damaged entry of a PO file does not
 replace the header

---
 domain.go |  1 +
 po.go     | 12 +++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/domain.go b/domain.go
index 37dd24e..d8cf48f 100644
--- a/domain.go
+++ b/domain.go
@@ -46,6 +46,7 @@ type Domain struct {
 	ctxBuffer  string
 	refBuffer  string
 	formBuffer int
+	headerRead bool
 
 	customPluralResolver func(int) int
 }
diff --git a/po.go b/po.go
index e469215..6c8e536 100644
--- a/po.go
+++ b/po.go
@@ -233,6 +233,7 @@ func (po *Po) Parse(buf []byte) {
 	po.domain.ctxBuffer = ""
 	po.domain.refBuffer = ""
 	po.domain.formBuffer = 0
+	po.domain.headerRead = false
 
 	state := head
 	for _, l := range lines {
@@ -299,7 +300,16 @@ func (po *Po) Parse(buf []byte) {
 func (po *Po) saveBuffer() {
 	// With no context...
 	if po.domain.ctxBuffer == "" {
-		po.domain.translations[po.domain.trBuffer.ID] = po.domain.trBuffer
+		if po.domain.trBuffer.ID == "" {
+			// Only the first entry without an id is the header. A later one is a damaged
+			// or truncated entry, and must not take the header's place.
+			if !po.domain.headerRead {
+				po.domain.translations[""] = po.domain.trBuffer
+				po.domain.headerRead = len(po.domain.trBuffer.Trs) > 0
+			}
+		} else {
+			po.domain.translations[po.domain.trBuffer.ID] = po.domain.trBuffer
+		}
 	} else {
 		// With context...
 		if _, ok := po.domain.contextTranslations[po.domain.ctxBuffer]; !ok {
-- 
2.43.0


From a4041155f6b3cb7f2d948bd1796ce32bdd36ed3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 32/47] fix: the context of a damaged entry does not leak into
 the following entry

---
 po.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/po.go b/po.go
index 6c8e536..f1bdc38 100644
--- a/po.go
+++ b/po.go
@@ -255,7 +255,7 @@ func (po *Po) Parse(buf []byte) {
 
 		// Buffer msgid and continue
 		if strings.HasPrefix(l, "msgid") && !strings.HasPrefix(l, "msgid_plural") {
-			po.parseID(l)
+			po.parseID(l, state)
 			state = msgID
 			continue
 		}
@@ -360,10 +360,15 @@ func (po *Po) parseContext(l string) {
 
 // parseID takes a line starting with "msgid",
 // saves the current Translation and creates a new msgid buffer.
-func (po *Po) parseID(l string) {
+func (po *Po) parseID(l string, state parseState) {
 	// Save current Translation buffer.
 	po.saveBuffer()
 
+	// A context that doesn't precede this id belongs to another entry, without a readable id.
+	if state != msgCtxt {
+		po.domain.ctxBuffer = ""
+	}
+
 	// Set id
 	po.domain.trBuffer.ID, _ = strconv.Unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgid")))
 }
-- 
2.43.0


From 2d4fde5ceb6af505a9fe20de73807d14c0766694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 33/47] fix: the plural rule 0 may be surrounded by spaces

---
 plurals/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index 792a125..f1dafa1 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -416,7 +416,7 @@ func tokenize(s string) ([]string, error) {
 
 // Compile a string containing a plural form expression to a Expression object.
 func Compile(s string) (expr Expression, err error) {
-	if s == "0" {
+	if strings.TrimSpace(s) == "0" {
 		return constValue{value: 0}, nil
 	}
 	if !strings.Contains(s, "?") {
-- 
2.43.0


From f10ca5f19a02373a36e92297da6eb4f28b838986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:54 +0000
Subject: [PATCH 34/47] fix: plural rules may have several parentheses around a
 term

---
 plurals/compiler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index f1dafa1..33a59e7 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -377,12 +377,12 @@ func enclosed(s string) bool {
 }
 
 // Tokenizes a string into a list of strings, tokens grouped by parenthesis are
-// not split! If the string starts with ( and ends in ), those are stripped.
+// not split! Parentheses around the whole string are stripped.
 func tokenize(s string) ([]string, error) {
 	if len(s) == 0 {
 		return []string{}, nil
 	}
-	if enclosed(s) {
+	for len(s) > 0 && enclosed(s) {
 		s = s[1 : len(s)-1]
 	}
 	// Take all chunks first, an early return would leave the sender blocked for ever
-- 
2.43.0


From 875cebfa0b0bbbf0f1bacb6cfdec30e8b49b8585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 35/47] fix: a plural rule in parentheses may be surrounded by
 spaces

---
 plurals/compiler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index 33a59e7..6dca5b8 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -416,7 +416,8 @@ func tokenize(s string) ([]string, error) {
 
 // Compile a string containing a plural form expression to a Expression object.
 func Compile(s string) (expr Expression, err error) {
-	if strings.TrimSpace(s) == "0" {
+	s = strings.TrimSpace(s)
+	if s == "0" {
 		return constValue{value: 0}, nil
 	}
 	if !strings.Contains(s, "?") {
-- 
2.43.0


From 89a22e00588fc8650aacaa0855a95768fb14066c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:41 +0000
Subject: [PATCH 36/47] fix: references of a PO file belong to the entry they
 precede, and may take several lines

---
 po.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/po.go b/po.go
index f1bdc38..bc13454 100644
--- a/po.go
+++ b/po.go
@@ -341,7 +341,8 @@ func (po *Po) parseComment(l string, state parseState) {
 			switch l[1] {
 			case ':':
 				if len(l) > 2 {
-					po.domain.refBuffer = strings.TrimSpace(l[2:])
+					// An entry may have several lines of references
+					po.domain.refBuffer = strings.TrimSpace(po.domain.refBuffer + " " + strings.TrimSpace(l[2:]))
 				}
 			}
 		}
@@ -369,6 +370,9 @@ func (po *Po) parseID(l string, state parseState) {
 		po.domain.ctxBuffer = ""
 	}
 
+	// References belong to the entry that follows them only.
+	po.domain.refBuffer = ""
+
 	// Set id
 	po.domain.trBuffer.ID, _ = strconv.Unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgid")))
 }
-- 
2.43.0


From dfb6910601c85e2a94146bed8526c777fad81a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:44 +0000
Subject: [PATCH 37/47] fix: choose the plural of a message independently of
 the order of packages

---
 cli/xgotext/parser/domain.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/xgotext/parser/domain.go b/cli/xgotext/parser/domain.go
index 8535e02..e99cb0c 100644
--- a/cli/xgotext/parser/domain.go
+++ b/cli/xgotext/parser/domain.go
@@ -28,7 +28,8 @@ func (t *Translation) AddLocations(locations []string) {
 // merge another occurrence of the same message
 func (t *Translation) merge(other *Translation) {
 	t.AddLocations(other.SourceLocations)
-	if t.MsgIDPlural == "" {
+	// when the plurals differ the choice must not depend on which was found first
+	if t.MsgIDPlural == "" || other.MsgIDPlural != "" && other.MsgIDPlural < t.MsgIDPlural {
 		t.MsgIDPlural = other.MsgIDPlural
 	}
 }
-- 
2.43.0


From cf9b91ed36aa91dd679471fbf356103d6c879767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:49 +0000
Subject: [PATCH 38/47] fix: importing a package of the same name must not hide
 the own package

---
 cli/xgotext/parser/dir/golang.go      | 3 ++-
 cli/xgotext/parser/pkg-tree/golang.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cli/xgotext/parser/dir/golang.go b/cli/xgotext/parser/dir/golang.go
index ec924ee..b0c5c00 100644
--- a/cli/xgotext/parser/dir/golang.go
+++ b/cli/xgotext/parser/dir/golang.go
@@ -52,7 +52,8 @@ func goParser(dirPath, basePath string, data *parser.DomainMap) error {
 				FileSet:  fileSet,
 
 				ImportedPackages: map[string]*packages.Package{
-					pkgs[0].Name: pkgs[0],
+					// under a name that no import can take
+					"": pkgs[0],
 				},
 			},
 		}
diff --git a/cli/xgotext/parser/pkg-tree/golang.go b/cli/xgotext/parser/pkg-tree/golang.go
index 9497c9e..2d8300b 100644
--- a/cli/xgotext/parser/pkg-tree/golang.go
+++ b/cli/xgotext/parser/pkg-tree/golang.go
@@ -41,7 +41,8 @@ func pkgParser(dirPath, basePath string, data *parser.DomainMap, verbose bool) e
 					FileSet:  pkg.Fset,
 
 					ImportedPackages: map[string]*packages.Package{
-						pkg.Name: pkg,
+						// under a name that no import can take
+						"": pkg,
 					},
 				},
 			}
-- 
2.43.0


From 98d288207723f652b71ff589f4797bfa7abf7887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:45 +0000
Subject: [PATCH 39/47] fix: one plural lookup uses one plural form when the
 rule is replaced meanwhile

---
 domain.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/domain.go b/domain.go
index d8cf48f..aed2edf 100644
--- a/domain.go
+++ b/domain.go
@@ -340,17 +340,20 @@ func (do *Domain) GetN(str, plural string, n int, vars ...interface{}) string {
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
+	// The rule may be replaced meanwhile: one lookup uses one form
+	form := do.pluralForm(n)
+
 	if do.translations != nil {
 		if _, ok := do.translations[str]; ok {
 			// A message without plural has nothing to offer for a missing form
-			if tr := do.translations[str].GetN(do.pluralForm(n)); tr != "" {
+			if tr := do.translations[str].GetN(form); tr != "" {
 				return FormatString(tr, vars...)
 			}
 		}
 	}
 
 	// Parse plural forms to distinguish between plural and singular
-	if do.pluralForm(n) == 0 {
+	if form == 0 {
 		return FormatString(str, vars...)
 	}
 	return FormatString(plural, vars...)
@@ -363,17 +366,20 @@ func (do *Domain) AppendN(b []byte, str, plural string, n int, vars ...interface
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
+	// The rule may be replaced meanwhile: one lookup uses one form
+	form := do.pluralForm(n)
+
 	if do.translations != nil {
 		if _, ok := do.translations[str]; ok {
 			// A message without plural has nothing to offer for a missing form
-			if tr := do.translations[str].GetN(do.pluralForm(n)); tr != "" {
+			if tr := do.translations[str].GetN(form); tr != "" {
 				return Appendf(b, tr, vars...)
 			}
 		}
 	}
 
 	// Parse plural forms to distinguish between plural and singular
-	if do.pluralForm(n) == 0 {
+	if form == 0 {
 		return Appendf(b, str, vars...)
 	}
 	return Appendf(b, plural, vars...)
-- 
2.43.0


From 61ba1bcb182051f40e67d5013e874792a2504e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:24 +0000
Subject: [PATCH 40/47] fix: the list of references of a message is the
 catalogue's own, not the caller's

---
 domain.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/domain.go b/domain.go
index aed2edf..d24ed23 100644
--- a/domain.go
+++ b/domain.go
@@ -235,6 +235,9 @@ func (do *Domain) SetRefs(str string, refs []string) {
 	defer do.trMutex.Unlock()
 	defer do.pluralMutex.Unlock()
 
+	// The list belongs to the caller, who may change it later
+	refs = append([]string(nil), refs...)
+
 	if trans, ok := do.translations[str]; ok {
 		trans.SetRefs(refs)
 	} else {
@@ -253,7 +256,8 @@ func (do *Domain) GetRefs(str string) []string {
 
 	if do.translations != nil {
 		if trans, ok := do.translations[str]; ok {
-			return trans.Refs
+			// A copy: the caller may change it
+			return append([]string(nil), trans.Refs...)
 		}
 	}
 	return nil
-- 
2.43.0


From dd3e0044a4d7ad5f091c2c1a15f0b7b8a876ea1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:30 +0000
Subject: [PATCH 41/47] fix: the package keeps and hands out lists of its own
 of locales and languages

---
 gotext.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gotext.go b/gotext.go
index 6196d48..5629574 100644
--- a/gotext.go
+++ b/gotext.go
@@ -132,7 +132,8 @@ func GetLanguage() string {
 func GetLanguages() []string {
 	globalConfig.RLock()
 	defer globalConfig.RUnlock()
-	return globalConfig.languages
+	// A copy: the caller may change it
+	return append([]string(nil), globalConfig.languages...)
 }
 
 // SetLanguage sets the language code (or colon separated language codes) to be used at package level.
@@ -172,7 +173,8 @@ func SetLibrary(lib string) {
 func GetLocales() []*Locale {
 	globalConfig.RLock()
 	defer globalConfig.RUnlock()
-	return globalConfig.locales
+	// A copy: the caller may change it
+	return append([]*Locale(nil), globalConfig.locales...)
 }
 
 // GetStorage is the locale storage getter for the package configuration.
@@ -193,7 +195,8 @@ func SetLocales(locales []*Locale) {
 	globalConfig.Lock()
 	defer globalConfig.Unlock()
 
-	globalConfig.locales = locales
+	// The list belongs to the caller, who may change it later
+	globalConfig.locales = append([]*Locale(nil), locales...)
 	globalConfig.library, _ = locales[0].location()
 	globalConfig.domain = locales[0].GetDomain()
 
-- 
2.43.0


From 76e02109dcc8c53affc6227a924c54e203f4cf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:51 +0000
Subject: [PATCH 42/47] fix: a header read again replaces what an earlier file
 said

---
 domain.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/domain.go b/domain.go
index d24ed23..3a72736 100644
--- a/domain.go
+++ b/domain.go
@@ -145,6 +145,9 @@ func (do *Domain) parseHeaders() {
 	languageKey := "Language"
 	pluralFormsKey := "Plural-Forms"
 
+	// A header that is read again replaces what an earlier file said
+	replaced := make(map[string]bool)
+
 	rawLines := strings.Split(raw, "\n")
 	for _, line := range rawLines {
 		if len(line) == 0 {
@@ -165,6 +168,10 @@ func (do *Domain) parseHeaders() {
 		}
 
 		value := strings.TrimSpace(line[colonIdx+1:])
+		if !replaced[key] {
+			do.Headers.Del(key)
+			replaced[key] = true
+		}
 		do.Headers.Add(key, value)
 	}
 
-- 
2.43.0


From 907f89ab0c9924d920d29b2eb2e68b17ce72b0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:58 +0000
Subject: [PATCH 43/47] fix: refuse plural rules with spaces inside a number or
 an operator

---
 plurals/compiler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index 6dca5b8..8247244 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -24,6 +24,9 @@ type match struct {
 
 var pat = regexp.MustCompile(`(\?|:|\|\||&&|==|!=|>=|>|<=|<|%|\d+|n|\(|\))`)
 
+// A number or an operator that is interrupted by spaces is none
+var interrupted = regexp.MustCompile(`\d +\d|[=!<>] +=|& +&|\| +\|`)
+
 type testToken interface {
 	compile(tokens []string) (test test, err error)
 }
@@ -420,6 +423,9 @@ func Compile(s string) (expr Expression, err error) {
 	if s == "0" {
 		return constValue{value: 0}, nil
 	}
+	if interrupted.MatchString(s) {
+		return nil, fmt.Errorf("invalid spaces in expression: %s", s)
+	}
 	if !strings.Contains(s, "?") {
 		s += "?1:0"
 	}
-- 
2.43.0


From 6c34ce04667548c420fa61d73a1776192045f0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:06 +0000
Subject: [PATCH 44/47] fix: comments above the header survive a binary round
 trip and are not repeated when a file is loaded again

---
 domain.go     | 2 ++
 po.go         | 8 ++++++++
 translator.go | 3 +++
 3 files changed, 13 insertions(+)

diff --git a/domain.go b/domain.go
index 3a72736..247c0d7 100644
--- a/domain.go
+++ b/domain.go
@@ -890,6 +890,7 @@ func (do *Domain) MarshalBinary() ([]byte, error) {
 	defer do.trMutex.RUnlock()
 
 	obj := new(TranslatorEncoding)
+	obj.HeaderComments = do.headerComments
 	obj.Headers = do.Headers
 	obj.Language = do.Language
 	obj.PluralForms = do.PluralForms
@@ -928,6 +929,7 @@ func (do *Domain) UnmarshalBinary(data []byte) error {
 
 // restore replaces the contents of the domain with decoded ones. The caller holds both locks.
 func (do *Domain) restore(obj *TranslatorEncoding) {
+	do.headerComments = obj.HeaderComments
 	do.Headers = obj.Headers
 	do.Language = obj.Language
 	do.PluralForms = obj.PluralForms
diff --git a/po.go b/po.go
index bc13454..5fa914a 100644
--- a/po.go
+++ b/po.go
@@ -235,6 +235,10 @@ func (po *Po) Parse(buf []byte) {
 	po.domain.formBuffer = 0
 	po.domain.headerRead = false
 
+	// The comments before the first entry replace those of an earlier file
+	formerComments := po.domain.headerComments
+	po.domain.headerComments = nil
+
 	state := head
 	for _, l := range lines {
 		// Trim spaces
@@ -285,6 +289,10 @@ func (po *Po) Parse(buf []byte) {
 	// Save last Translation buffer.
 	po.saveBuffer()
 
+	if len(po.domain.headerComments) == 0 {
+		po.domain.headerComments = formerComments
+	}
+
 	// Parse headers
 	po.domain.parseHeaders()
 
diff --git a/translator.go b/translator.go
index 4ade119..5815a1b 100644
--- a/translator.go
+++ b/translator.go
@@ -39,6 +39,9 @@ type AppendTranslator interface {
 
 // TranslatorEncoding is used as intermediary storage to encode Translator objects to Gob.
 type TranslatorEncoding struct {
+	// Comments before the header
+	HeaderComments []string
+
 	// Headers storage
 	Headers HeaderMap
 
-- 
2.43.0


From 7d06fc605334539c79be284a6929c698db87f7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:16 +0000
Subject: [PATCH 45/47] fix: format arguments without holding locks, so that
 their methods may look up translations

---
 domain.go | 116 ++++++++++++++++++------------------------------------
 gotext.go |  52 +++++++++++-------------
 locale.go |  56 ++++++++------------------
 3 files changed, 78 insertions(+), 146 deletions(-)

diff --git a/domain.go b/domain.go
index 247c0d7..e4631e3 100644
--- a/domain.go
+++ b/domain.go
@@ -289,35 +289,30 @@ func (do *Domain) Set(id, str string) {
 
 // Get retrieves the Translation for the given string.
 func (do *Domain) Get(str string, vars ...interface{}) string {
+	return FormatString(do.text(str), vars...)
+}
+
+// text returns the translation of str, or str. It is formatted without the lock:
+// the methods of an argument may look up translations too.
+func (do *Domain) text(str string) string {
 	// Sync read
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
 	if do.translations != nil {
 		if _, ok := do.translations[str]; ok {
-			return FormatString(do.translations[str].Get(), vars...)
+			return do.translations[str].Get()
 		}
 	}
 
 	// Return the same we received by default
-	return FormatString(str, vars...)
+	return str
 }
 
 // Append retrieves the Translation for the given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) Append(b []byte, str string, vars ...interface{}) []byte {
-	// Sync read
-	do.trMutex.RLock()
-	defer do.trMutex.RUnlock()
-
-	if do.translations != nil {
-		if _, ok := do.translations[str]; ok {
-			return Appendf(b, do.translations[str].Get(), vars...)
-		}
-	}
-
-	// Return the same we received by default
-	return Appendf(b, str, vars...)
+	return Appendf(b, do.text(str), vars...)
 }
 
 // SetN sets the (N)th plural form for the given string
@@ -347,6 +342,12 @@ func (do *Domain) SetN(id, plural string, n int, str string) {
 // GetN retrieves the (N)th plural form of Translation for the given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) GetN(str, plural string, n int, vars ...interface{}) string {
+	return FormatString(do.textN(str, plural, n), vars...)
+}
+
+// textN returns the plural form of the translation of str for n, or str or plural. It is formatted without the lock:
+// the methods of an argument may look up translations too.
+func (do *Domain) textN(str, plural string, n int) string {
 	// Sync read
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
@@ -358,42 +359,22 @@ func (do *Domain) GetN(str, plural string, n int, vars ...interface{}) string {
 		if _, ok := do.translations[str]; ok {
 			// A message without plural has nothing to offer for a missing form
 			if tr := do.translations[str].GetN(form); tr != "" {
-				return FormatString(tr, vars...)
+				return tr
 			}
 		}
 	}
 
 	// Parse plural forms to distinguish between plural and singular
 	if form == 0 {
-		return FormatString(str, vars...)
+		return str
 	}
-	return FormatString(plural, vars...)
+	return plural
 }
 
 // AppendN adds the (N)th plural form of Translation for the given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) AppendN(b []byte, str, plural string, n int, vars ...interface{}) []byte {
-	// Sync read
-	do.trMutex.RLock()
-	defer do.trMutex.RUnlock()
-
-	// The rule may be replaced meanwhile: one lookup uses one form
-	form := do.pluralForm(n)
-
-	if do.translations != nil {
-		if _, ok := do.translations[str]; ok {
-			// A message without plural has nothing to offer for a missing form
-			if tr := do.translations[str].GetN(form); tr != "" {
-				return Appendf(b, tr, vars...)
-			}
-		}
-	}
-
-	// Parse plural forms to distinguish between plural and singular
-	if form == 0 {
-		return Appendf(b, str, vars...)
-	}
-	return Appendf(b, plural, vars...)
+	return Appendf(b, do.textN(str, plural, n), vars...)
 }
 
 // SetC sets the translation for the given string in the given context
@@ -425,6 +406,12 @@ func (do *Domain) SetC(id, ctx, str string) {
 // GetC retrieves the corresponding Translation for a given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) GetC(str, ctx string, vars ...interface{}) string {
+	return FormatString(do.textC(str, ctx), vars...)
+}
+
+// textC returns the translation of str in the context, or str. It is formatted without the lock:
+// the methods of an argument may look up translations too.
+func (do *Domain) textC(str, ctx string) string {
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
@@ -432,34 +419,20 @@ func (do *Domain) GetC(str, ctx string, vars ...interface{}) string {
 		if _, ok := do.contextTranslations[ctx]; ok {
 			if do.contextTranslations[ctx] != nil {
 				if _, ok := do.contextTranslations[ctx][str]; ok {
-					return FormatString(do.contextTranslations[ctx][str].Get(), vars...)
+					return do.contextTranslations[ctx][str].Get()
 				}
 			}
 		}
 	}
 
 	// Return the string we received by default
-	return FormatString(str, vars...)
+	return str
 }
 
 // AppendC retrieves the corresponding Translation for a given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) AppendC(b []byte, str, ctx string, vars ...interface{}) []byte {
-	do.trMutex.RLock()
-	defer do.trMutex.RUnlock()
-
-	if do.contextTranslations != nil {
-		if _, ok := do.contextTranslations[ctx]; ok {
-			if do.contextTranslations[ctx] != nil {
-				if _, ok := do.contextTranslations[ctx][str]; ok {
-					return Appendf(b, do.contextTranslations[ctx][str].Get(), vars...)
-				}
-			}
-		}
-	}
-
-	// Return the string we received by default
-	return Appendf(b, str, vars...)
+	return Appendf(b, do.textC(str, ctx), vars...)
 }
 
 // SetNC sets the (N)th plural form for the given string in the given context
@@ -499,6 +472,12 @@ func (do *Domain) SetNC(id, plural, ctx string, n int, str string) {
 // GetNC retrieves the (N)th plural form of Translation for the given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) GetNC(str, plural string, n int, ctx string, vars ...interface{}) string {
+	return FormatString(do.textNC(str, plural, n, ctx), vars...)
+}
+
+// textNC returns the plural form of the translation of str in the context for n, or str or plural. It is formatted without the lock:
+// the methods of an argument may look up translations too.
+func (do *Domain) textNC(str, plural string, n int, ctx string) string {
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
@@ -508,7 +487,7 @@ func (do *Domain) GetNC(str, plural string, n int, ctx string, vars ...interface
 				if _, ok := do.contextTranslations[ctx][str]; ok {
 					// A message without plural has nothing to offer for a missing form
 					if tr := do.contextTranslations[ctx][str].GetN(do.pluralForm(n)); tr != "" {
-						return FormatString(tr, vars...)
+						return tr
 					}
 				}
 			}
@@ -516,34 +495,15 @@ func (do *Domain) GetNC(str, plural string, n int, ctx string, vars ...interface
 	}
 
 	if n == 1 {
-		return FormatString(str, vars...)
+		return str
 	}
-	return FormatString(plural, vars...)
+	return plural
 }
 
 // AppendNC retrieves the (N)th plural form of Translation for the given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) AppendNC(b []byte, str, plural string, n int, ctx string, vars ...interface{}) []byte {
-	do.trMutex.RLock()
-	defer do.trMutex.RUnlock()
-
-	if do.contextTranslations != nil {
-		if _, ok := do.contextTranslations[ctx]; ok {
-			if do.contextTranslations[ctx] != nil {
-				if _, ok := do.contextTranslations[ctx][str]; ok {
-					// A message without plural has nothing to offer for a missing form
-					if tr := do.contextTranslations[ctx][str].GetN(do.pluralForm(n)); tr != "" {
-						return Appendf(b, tr, vars...)
-					}
-				}
-			}
-		}
-	}
-
-	if n == 1 {
-		return Appendf(b, str, vars...)
-	}
-	return Appendf(b, plural, vars...)
+	return Appendf(b, do.textNC(str, plural, n, ctx), vars...)
 }
 
 // IsTranslated reports whether a string is translated
diff --git a/gotext.go b/gotext.go
index 5629574..de4df88 100644
--- a/gotext.go
+++ b/gotext.go
@@ -86,6 +86,14 @@ func loadLocales(rebuildCache bool) {
 	globalConfig.Unlock()
 }
 
+// currentLocales returns the locales in use. The list is replaced, never changed. It is used
+// without the lock: the methods of an argument may look up translations too.
+func currentLocales() []*Locale {
+	globalConfig.RLock()
+	defer globalConfig.RUnlock()
+	return globalConfig.locales
+}
+
 // GetDomain is the domain getter for the package configuration
 func GetDomain() string {
 	var dom string
@@ -250,15 +258,13 @@ func GetD(dom, str string, vars ...interface{}) string {
 	// Try to load default package Locales
 	loadLocales(false)
 
-	globalConfig.RLock()
-	defer globalConfig.RUnlock()
-
 	var tr string
-	for i, locale := range globalConfig.locales {
+	locales := currentLocales()
+	for i, locale := range locales {
 		if !locale.hasDomain(dom) {
 			locale.AddDomain(dom)
 		}
-		if !locale.IsTranslatedD(dom, str) && i < (len(globalConfig.locales)-1) {
+		if !locale.IsTranslatedD(dom, str) && i < (len(locales)-1) {
 			continue
 		}
 		tr = locale.GetD(dom, str, vars...)
@@ -273,15 +279,13 @@ func GetND(dom, str, plural string, n int, vars ...interface{}) string {
 	// Try to load default package Locales
 	loadLocales(false)
 
-	globalConfig.RLock()
-	defer globalConfig.RUnlock()
-
 	var tr string
-	for i, locale := range globalConfig.locales {
+	locales := currentLocales()
+	for i, locale := range locales {
 		if !locale.hasDomain(dom) {
 			locale.AddDomain(dom)
 		}
-		if !locale.IsTranslatedND(dom, str, n) && i < (len(globalConfig.locales)-1) {
+		if !locale.IsTranslatedND(dom, str, n) && i < (len(locales)-1) {
 			continue
 		}
 		tr = locale.GetND(dom, str, plural, n, vars...)
@@ -308,15 +312,13 @@ func GetDC(dom, str, ctx string, vars ...interface{}) string {
 	// Try to load default package Locales
 	loadLocales(false)
 
-	globalConfig.RLock()
-	defer globalConfig.RUnlock()
-
 	var tr string
-	for i, locale := range globalConfig.locales {
+	locales := currentLocales()
+	for i, locale := range locales {
 		if !locale.hasDomain(dom) {
 			locale.AddDomain(dom)
 		}
-		if !locale.IsTranslatedDC(dom, str, ctx) && i < (len(globalConfig.locales)-1) {
+		if !locale.IsTranslatedDC(dom, str, ctx) && i < (len(locales)-1) {
 			continue
 		}
 		tr = locale.GetDC(dom, str, ctx, vars...)
@@ -332,15 +334,13 @@ func GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) str
 	loadLocales(false)
 
 	// Return Translation
-	globalConfig.RLock()
-	defer globalConfig.RUnlock()
-
 	var tr string
-	for i, locale := range globalConfig.locales {
+	locales := currentLocales()
+	for i, locale := range locales {
 		if !locale.hasDomain(dom) {
 			locale.AddDomain(dom)
 		}
-		if !locale.IsTranslatedNDC(dom, str, n, ctx) && i < (len(globalConfig.locales)-1) {
+		if !locale.IsTranslatedNDC(dom, str, n, ctx) && i < (len(locales)-1) {
 			continue
 		}
 		tr = locale.GetNDC(dom, str, plural, n, ctx, vars...)
@@ -376,13 +376,11 @@ func IsTranslatedND(dom, str string, n int, langs ...string) bool {
 
 	loadLocales(false)
 
-	globalConfig.RLock()
-	defer globalConfig.RUnlock()
-
+	locales := currentLocales()
 	for _, lang := range langs {
 		lang = SimplifiedLocale(lang)
 
-		for _, supportedLocale := range globalConfig.locales {
+		for _, supportedLocale := range locales {
 			if lang != supportedLocale.GetLanguage() && lang != supportedLocale.GetActualLanguage(dom) {
 				continue
 			}
@@ -424,13 +422,11 @@ func IsTranslatedNDC(dom, str string, n int, ctx string, langs ...string) bool {
 
 	loadLocales(false)
 
-	globalConfig.RLock()
-	defer globalConfig.RUnlock()
-
+	locales := currentLocales()
 	for _, lang := range langs {
 		lang = SimplifiedLocale(lang)
 
-		for _, locale := range globalConfig.locales {
+		for _, locale := range locales {
 			if lang != locale.GetLanguage() && lang != locale.GetActualLanguage(dom) {
 				continue
 			}
diff --git a/locale.go b/locale.go
index 1f3ca80..a10956a 100644
--- a/locale.go
+++ b/locale.go
@@ -257,6 +257,14 @@ func (l *Locale) GetLanguage() string {
 	return lang
 }
 
+// translator returns the Translator of the domain, nil if there is none. It is used without
+// the lock: the methods of an argument (or the Translator) may look up translations too.
+func (l *Locale) translator(dom string) Translator {
+	l.RLock()
+	defer l.RUnlock()
+	return l.Domains[dom]
+}
+
 // Get uses a domain "default" to return the corresponding Translation of a given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (l *Locale) Get(str string, vars ...interface{}) string {
@@ -272,16 +280,8 @@ func (l *Locale) GetN(str, plural string, n int, vars ...interface{}) string {
 // GetD returns the corresponding Translation in the given domain for the given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (l *Locale) GetD(dom, str string, vars ...interface{}) string {
-	// Sync read
-	l.RLock()
-	defer l.RUnlock()
-
-	if l.Domains != nil {
-		if _, ok := l.Domains[dom]; ok {
-			if l.Domains[dom] != nil {
-				return l.Domains[dom].Get(str, vars...)
-			}
-		}
+	if tr := l.translator(dom); tr != nil {
+		return tr.Get(str, vars...)
 	}
 
 	return FormatString(str, vars...)
@@ -290,16 +290,8 @@ func (l *Locale) GetD(dom, str string, vars ...interface{}) string {
 // GetND retrieves the (N)th plural form of Translation in the given domain for the given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (l *Locale) GetND(dom, str, plural string, n int, vars ...interface{}) string {
-	// Sync read
-	l.RLock()
-	defer l.RUnlock()
-
-	if l.Domains != nil {
-		if _, ok := l.Domains[dom]; ok {
-			if l.Domains[dom] != nil {
-				return l.Domains[dom].GetN(str, plural, n, vars...)
-			}
-		}
+	if tr := l.translator(dom); tr != nil {
+		return tr.GetN(str, plural, n, vars...)
 	}
 
 	// Use western default rule (plural > 1) to handle missing domain default result.
@@ -324,16 +316,8 @@ func (l *Locale) GetNC(str, plural string, n int, ctx string, vars ...interface{
 // GetDC returns the corresponding Translation in the given domain for the given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (l *Locale) GetDC(dom, str, ctx string, vars ...interface{}) string {
-	// Sync read
-	l.RLock()
-	defer l.RUnlock()
-
-	if l.Domains != nil {
-		if _, ok := l.Domains[dom]; ok {
-			if l.Domains[dom] != nil {
-				return l.Domains[dom].GetC(str, ctx, vars...)
-			}
-		}
+	if tr := l.translator(dom); tr != nil {
+		return tr.GetC(str, ctx, vars...)
 	}
 
 	return FormatString(str, vars...)
@@ -342,16 +326,8 @@ func (l *Locale) GetDC(dom, str, ctx string, vars ...interface{}) string {
 // GetNDC retrieves the (N)th plural form of Translation in the given domain for the given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (l *Locale) GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) string {
-	// Sync read
-	l.RLock()
-	defer l.RUnlock()
-
-	if l.Domains != nil {
-		if _, ok := l.Domains[dom]; ok {
-			if l.Domains[dom] != nil {
-				return l.Domains[dom].GetNC(str, plural, n, ctx, vars...)
-			}
-		}
+	if tr := l.translator(dom); tr != nil {
+		return tr.GetNC(str, plural, n, ctx, vars...)
 	}
 
 	// Use western default rule (plural > 1) to handle missing domain default result.
-- 
2.43.0


From 43fb032ed65e0cd960c79d5f8a602500a5fc8765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:06 +0000
Subject: [PATCH 46/47] fix: an entry cut short before its translation does not
 replace another message

---
 po.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/po.go b/po.go
index 5fa914a..67b93c4 100644
--- a/po.go
+++ b/po.go
@@ -315,7 +315,8 @@ func (po *Po) saveBuffer() {
 				po.domain.translations[""] = po.domain.trBuffer
 				po.domain.headerRead = len(po.domain.trBuffer.Trs) > 0
 			}
-		} else {
+		} else if po.domain.translations[po.domain.trBuffer.ID] == nil || len(po.domain.trBuffer.Trs) > 0 {
+			// An entry without any translation is cut short, also its id may be, and must not replace another
 			po.domain.translations[po.domain.trBuffer.ID] = po.domain.trBuffer
 		}
 	} else {
@@ -323,7 +324,9 @@ func (po *Po) saveBuffer() {
 		if _, ok := po.domain.contextTranslations[po.domain.ctxBuffer]; !ok {
 			po.domain.contextTranslations[po.domain.ctxBuffer] = make(map[string]*Translation)
 		}
-		po.domain.contextTranslations[po.domain.ctxBuffer][po.domain.trBuffer.ID] = po.domain.trBuffer
+		if po.domain.contextTranslations[po.domain.ctxBuffer][po.domain.trBuffer.ID] == nil || len(po.domain.trBuffer.Trs) > 0 {
+			po.domain.contextTranslations[po.domain.ctxBuffer][po.domain.trBuffer.ID] = po.domain.trBuffer
+		}
 
 		// Cleanup current context buffer if needed
 		if po.domain.trBuffer.ID != "" {
-- 
2.43.0


From cd1ea63f3afe4221c46336a674f9ecc90f08def4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:21 +0000
Subject: [PATCH 47/47] fix: references several blanks or a tab apart are read
 as they are written

---
 po.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/po.go b/po.go
index 67b93c4..83eedf9 100644
--- a/po.go
+++ b/po.go
@@ -338,7 +338,9 @@ func (po *Po) saveBuffer() {
 	if po.domain.refBuffer == "" {
 		po.domain.trBuffer = NewTranslation()
 	} else {
-		po.domain.trBuffer = NewTranslationWithRefs(strings.Split(po.domain.refBuffer, " "))
+		// References may be any number of blanks apart
+		blank := func(r rune) bool { return r == ' ' || r == '\t' }
+		po.domain.trBuffer = NewTranslationWithRefs(strings.FieldsFunc(po.domain.refBuffer, blank))
 	}
 }
 
-- 
2.43.0

