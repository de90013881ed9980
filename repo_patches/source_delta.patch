From 025947935230dd1c23111ad48c0d2acbffd5840c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:00 +0000
Subject: [PATCH 01/32] fix: read every band file of a vault, whatever its path
 and contents

Glob treated metacharacters of the vault path as a pattern and swallowed
directory errors, an empty band file broke the joined JSON and a truncated
one crashed the program.
---
 1pass-parse/repo/file/itemrepo.go | 51 +++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/1pass-parse/repo/file/itemrepo.go b/1pass-parse/repo/file/itemrepo.go
index 9f73385..eb90cd2 100644
--- a/1pass-parse/repo/file/itemrepo.go
+++ b/1pass-parse/repo/file/itemrepo.go
@@ -6,9 +6,12 @@ package file
 
 import (
 	"encoding/json"
+	"fmt"
 	"io/ioutil"
 	"log"
+	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 
 	"github.com/mashmb/1pass/1pass-core/core/domain"
@@ -22,6 +25,38 @@ func NewFileItemRepo() *fileItemRepo {
 	return &fileItemRepo{}
 }
 
+func findBandFiles(dir string) ([]string, error) {
+	profileDir, err := os.Open(dir)
+
+	if err != nil {
+		return nil, err
+	}
+
+	defer profileDir.Close()
+	names, err := profileDir.Readdirnames(-1)
+
+	if err != nil {
+		return nil, err
+	}
+
+	sort.Strings(names)
+	bandFiles := make([]string, 0)
+
+	for _, name := range names {
+		matched, err := filepath.Match(domain.BandFilePattern, name)
+
+		if err != nil {
+			return nil, err
+		}
+
+		if matched {
+			bandFiles = append(bandFiles, filepath.Join(dir, name))
+		}
+	}
+
+	return bandFiles, nil
+}
+
 func (repo *fileItemRepo) CountByCategoryAndTrashed(category *domain.ItemCategory, trashed bool) int {
 	count := 0
 
@@ -87,15 +122,13 @@ func (repo *fileItemRepo) FindFirstByUidAndTrashed(uid string, trashed bool) *do
 func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 	items := make([]*domain.RawItem, 0)
 	var itemsJson map[string]interface{}
-	bandFiles, err := filepath.Glob(filepath.Join(vault.Path, domain.ProfileDir, domain.BandFilePattern))
+	bandFiles, err := findBandFiles(filepath.Join(vault.Path, domain.ProfileDir))
 
 	if err != nil {
 		log.Fatalln(err)
 	}
 
 	if len(bandFiles) != 0 {
-		itemsFile := "{"
-
 		for _, bandFile := range bandFiles {
 			file, err := ioutil.ReadFile(bandFile)
 
@@ -103,13 +136,13 @@ func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 				log.Fatalln(err)
 			}
 
-			itemsFile = itemsFile + string(file[4:len(file)-3]) + ","
-		}
-
-		itemsFile = itemsFile[:len(itemsFile)-1] + "}"
+			if len(file) < 7 {
+				log.Fatalln(fmt.Errorf("%v is not a valid band file", bandFile))
+			}
 
-		if err := json.Unmarshal([]byte(itemsFile), &itemsJson); err != nil {
-			log.Fatalln(err)
+			if err := json.Unmarshal([]byte("{"+string(file[4:len(file)-3])+"}"), &itemsJson); err != nil {
+				log.Fatalln(err)
+			}
 		}
 
 		for uid, value := range itemsJson {
-- 
2.43.0


From c4d8bcd2b09cf81d8223c50f33062907a23574ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:30 +0000
Subject: [PATCH 02/32] fix: load the other items when an item lacks a property
 or has one of another type

---
 1pass-parse/repo/file/itemrepo.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/1pass-parse/repo/file/itemrepo.go b/1pass-parse/repo/file/itemrepo.go
index eb90cd2..aed65d4 100644
--- a/1pass-parse/repo/file/itemrepo.go
+++ b/1pass-parse/repo/file/itemrepo.go
@@ -146,17 +146,21 @@ func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 		}
 
 		for uid, value := range itemsJson {
-			v := value.(map[string]interface{})
-			created := int64(v["created"].(float64))
-			updated := int64(v["updated"].(float64))
-			trashed := false
+			v, ok := value.(map[string]interface{})
 
-			if v["trashed"] != nil {
-				trashed = v["trashed"].(bool)
+			if !ok {
+				continue
 			}
 
-			item := domain.NewRawItem(v["category"].(string), v["d"].(string), v["hmac"].(string), v["k"].(string),
-				v["o"].(string), uid, created, updated, trashed)
+			created, _ := v["created"].(float64)
+			updated, _ := v["updated"].(float64)
+			trashed, _ := v["trashed"].(bool)
+			category, _ := v["category"].(string)
+			details, _ := v["d"].(string)
+			hmac, _ := v["hmac"].(string)
+			keys, _ := v["k"].(string)
+			overview, _ := v["o"].(string)
+			item := domain.NewRawItem(category, details, hmac, keys, overview, uid, int64(created), int64(updated), trashed)
 			items = append(items, item)
 		}
 	}
-- 
2.43.0


From 7a592d39b56717ab7b2704cc6e6f02d6db70dce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:36 +0000
Subject: [PATCH 03/32] fix: reject encrypted data that is too short or badly
 sized instead of crashing

---
 1pass-core/core/domain/error.go       |  1 +
 1pass-core/core/service/keyservice.go | 23 ++++++++++++++++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/1pass-core/core/domain/error.go b/1pass-core/core/domain/error.go
index d629915..f867cb0 100644
--- a/1pass-core/core/domain/error.go
+++ b/1pass-core/core/domain/error.go
@@ -9,6 +9,7 @@ import (
 )
 
 var (
+	ErrInvalidData     = errors.New("invalid data")
 	ErrInvalidMd5      = errors.New("invalid MD5 checksum")
 	ErrInvalidHmac     = errors.New("invalid HMAC")
 	ErrInvalidPass     = errors.New("invalid password")
diff --git a/1pass-core/core/service/keyservice.go b/1pass-core/core/service/keyservice.go
index 7bc3702..c784312 100644
--- a/1pass-core/core/service/keyservice.go
+++ b/1pass-core/core/service/keyservice.go
@@ -59,6 +59,10 @@ func (s *dfltKeyService) DecodeData(key, initVector, data []byte) ([]byte, error
 		return nil, err
 	}
 
+	if len(initVector) != aes.BlockSize || len(data)%aes.BlockSize != 0 {
+		return nil, domain.ErrInvalidData
+	}
+
 	mode := cipher.NewCBCDecrypter(block, initVector)
 	mode.CryptBlocks(data, data)
 
@@ -84,6 +88,10 @@ func (s *dfltKeyService) DecodeKeys(key, derivedKey, derivedMac []byte) ([]byte,
 }
 
 func (s *dfltKeyService) DecodeOpdata(cipherText, key, macKey []byte) ([]byte, error) {
+	if len(cipherText) < 64 {
+		return nil, domain.ErrInvalidData
+	}
+
 	data, mac := cipherText[:len(cipherText)-32], cipherText[len(cipherText)-32:]
 
 	if err := s.CheckHmac(data, macKey, mac); err != nil {
@@ -103,6 +111,10 @@ func (s *dfltKeyService) DecodeOpdata(cipherText, key, macKey []byte) ([]byte, e
 		return nil, err
 	}
 
+	if plainSize < 0 || plainSize > int64(len(plain)) {
+		return nil, domain.ErrInvalidData
+	}
+
 	return plain[len(plain)-int(plainSize):], nil
 }
 
@@ -121,8 +133,17 @@ func (s *dfltKeyService) DerivedKeys(password string) ([]byte, []byte, error) {
 
 func (s *dfltKeyService) ItemKeys(item *domain.RawItem, keys *domain.Keys) ([]byte, []byte) {
 	itemKeys, _ := base64.StdEncoding.DecodeString(item.Keys)
+
+	if len(itemKeys) < 112 {
+		return nil, nil
+	}
+
 	data := itemKeys[:len(itemKeys)-32]
-	plain, _ := s.DecodeData(keys.MasterKey, data[0:16], data[16:])
+	plain, err := s.DecodeData(keys.MasterKey, data[0:16], data[16:])
+
+	if err != nil {
+		return nil, nil
+	}
 
 	return plain[0:32], plain[32:64]
 }
-- 
2.43.0


From dabbece32cfd1b5ca9aa1de2ea323e094a44f856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:26 +0000
Subject: [PATCH 04/32] fix: do not crash on item contents of an unexpected
 form

---
 1pass-core/core/domain/datatype.go     |  2 +-
 1pass-core/core/service/itemservice.go | 41 +++++++++++++++-----------
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/1pass-core/core/domain/datatype.go b/1pass-core/core/domain/datatype.go
index 41d1602..bc42e2f 100644
--- a/1pass-core/core/domain/datatype.go
+++ b/1pass-core/core/domain/datatype.go
@@ -83,7 +83,7 @@ func (r *dataTypeRegistry) parseAddress(jsonValue map[string]interface{}) string
 	sort.Strings(keys)
 
 	for _, key := range keys {
-		val := jsonValue[key].(string)
+		val, _ := jsonValue[key].(string)
 		val = strings.TrimSpace(val)
 		val = strings.ReplaceAll(val, "\n", " ")
 		formatted := fmt.Sprintf("\n  %v: %v", key, val)
diff --git a/1pass-core/core/service/itemservice.go b/1pass-core/core/service/itemservice.go
index 037ef49..68983aa 100644
--- a/1pass-core/core/service/itemservice.go
+++ b/1pass-core/core/service/itemservice.go
@@ -59,11 +59,12 @@ func (s *dfltItemService) DecodeItems(vault *domain.Vault, keys *domain.Keys) {
 
 			if detailsJson["sections"] == nil {
 				if detailsJson["fields"] != nil {
-					fieldsJson := detailsJson["fields"].([]interface{})
+					fieldsJson, _ := detailsJson["fields"].([]interface{})
 					fields := make([]*domain.ItemField, 0)
 
 					for _, fieldJson := range fieldsJson {
-						field := s.ParseItemField(false, fieldJson.(map[string]interface{}))
+						fieldData, _ := fieldJson.(map[string]interface{})
+						field := s.ParseItemField(false, fieldData)
 
 						if field != nil {
 							fields = append(fields, field)
@@ -76,10 +77,11 @@ func (s *dfltItemService) DecodeItems(vault *domain.Vault, keys *domain.Keys) {
 					}
 				}
 			} else {
-				sectionsJson := detailsJson["sections"].([]interface{})
+				sectionsJson, _ := detailsJson["sections"].([]interface{})
 
 				for _, sectionJson := range sectionsJson {
-					section := s.ParseItemSection(sectionJson.(map[string]interface{}))
+					sectionData, _ := sectionJson.(map[string]interface{})
+					section := s.ParseItemSection(sectionData)
 
 					if section != nil {
 						sections = append(sections, section)
@@ -92,15 +94,15 @@ func (s *dfltItemService) DecodeItems(vault *domain.Vault, keys *domain.Keys) {
 			var notes string
 
 			if overviewJson["title"] != nil {
-				title = overviewJson["title"].(string)
+				title, _ = overviewJson["title"].(string)
 			}
 
 			if overviewJson["url"] != nil {
-				url = overviewJson["url"].(string)
+				url, _ = overviewJson["url"].(string)
 			}
 
 			if detailsJson["notesPlain"] != nil {
-				notes = detailsJson["notesPlain"].(string)
+				notes, _ = detailsJson["notesPlain"].(string)
 			}
 
 			if len(sections) == 0 {
@@ -154,8 +156,8 @@ func (s *dfltItemService) ParseItemField(fromSection bool, data map[string]inter
 
 	if !fromSection {
 		if data["value"] != nil && data["name"] != nil {
-			value = data["value"].(string)
-			name := data["name"].(string)
+			value, _ = data["value"].(string)
+			name, _ := data["name"].(string)
 
 			if value != "" && name != "" {
 				field = domain.NewItemField(strings.Title(name), value)
@@ -163,19 +165,22 @@ func (s *dfltItemService) ParseItemField(fromSection bool, data map[string]inter
 		}
 	} else {
 		if data["v"] != nil {
-			dataType, err := domain.DataTypeEnum.FromName(data["k"].(string))
+			kind, _ := data["k"].(string)
+			name, _ := data["t"].(string)
+			dataType, err := domain.DataTypeEnum.FromName(kind)
 
 			if err != nil {
-				value = data["v"].(string)
+				value = fmt.Sprint(data["v"])
 			} else {
 				if dataType == domain.DataTypeEnum.Address {
-					value = domain.DataTypeEnum.ParseValue(dataType, "", data["v"].(map[string]interface{}))
+					address, _ := data["v"].(map[string]interface{})
+					value = domain.DataTypeEnum.ParseValue(dataType, "", address)
 				} else {
 					value = domain.DataTypeEnum.ParseValue(dataType, fmt.Sprint(data["v"]), nil)
 				}
 			}
 
-			field = domain.NewItemField(strings.Title(data["t"].(string)), value)
+			field = domain.NewItemField(strings.Title(name), value)
 		}
 	}
 
@@ -187,10 +192,11 @@ func (s *dfltItemService) ParseItemSection(data map[string]interface{}) *domain.
 	fields := make([]*domain.ItemField, 0)
 
 	if data["fields"] != nil {
-		fieldsData := data["fields"].([]interface{})
+		fieldsData, _ := data["fields"].([]interface{})
 
-		for _, fieldData := range fieldsData {
-			field := s.ParseItemField(true, fieldData.(map[string]interface{}))
+		for _, fieldJson := range fieldsData {
+			fieldData, _ := fieldJson.(map[string]interface{})
+			field := s.ParseItemField(true, fieldData)
 
 			if field != nil {
 				fields = append(fields, field)
@@ -203,7 +209,8 @@ func (s *dfltItemService) ParseItemSection(data map[string]interface{}) *domain.
 	}
 
 	if data["title"] != nil {
-		title = strings.Title(data["title"].(string))
+		title, _ = data["title"].(string)
+		title = strings.Title(title)
 	}
 
 	if fields == nil && title == "" {
-- 
2.43.0


From 9d62c91f02b54ec81d02101a49811535f50c2a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:31 +0000
Subject: [PATCH 05/32] fix: show stored dates instead of 1970-01-01

JSON numbers were formatted with an exponent, which does not parse as an integer.
---
 1pass-core/core/service/itemservice.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/1pass-core/core/service/itemservice.go b/1pass-core/core/service/itemservice.go
index 68983aa..5891a61 100644
--- a/1pass-core/core/service/itemservice.go
+++ b/1pass-core/core/service/itemservice.go
@@ -9,6 +9,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/mashmb/1pass/1pass-core/core/domain"
@@ -175,6 +176,8 @@ func (s *dfltItemService) ParseItemField(fromSection bool, data map[string]inter
 				if dataType == domain.DataTypeEnum.Address {
 					address, _ := data["v"].(map[string]interface{})
 					value = domain.DataTypeEnum.ParseValue(dataType, "", address)
+				} else if number, ok := data["v"].(float64); ok {
+					value = domain.DataTypeEnum.ParseValue(dataType, strconv.FormatFloat(number, 'f', -1, 64), nil)
 				} else {
 					value = domain.DataTypeEnum.ParseValue(dataType, fmt.Sprint(data["v"]), nil)
 				}
-- 
2.43.0


From bab1eb1b3358de4a499a398593ccdf90cdb80c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:54 +0000
Subject: [PATCH 06/32] fix: show the fields of an item that has sections as
 well

A login with a custom section hid its user name and password.
---
 1pass-core/core/service/itemservice.go | 34 +++++++++++++-------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/1pass-core/core/service/itemservice.go b/1pass-core/core/service/itemservice.go
index 5891a61..16e6ed1 100644
--- a/1pass-core/core/service/itemservice.go
+++ b/1pass-core/core/service/itemservice.go
@@ -58,26 +58,26 @@ func (s *dfltItemService) DecodeItems(vault *domain.Vault, keys *domain.Keys) {
 			detailsJson := s.DecodeDetails(encoded, keys)
 			sections := make([]*domain.ItemSection, 0)
 
-			if detailsJson["sections"] == nil {
-				if detailsJson["fields"] != nil {
-					fieldsJson, _ := detailsJson["fields"].([]interface{})
-					fields := make([]*domain.ItemField, 0)
-
-					for _, fieldJson := range fieldsJson {
-						fieldData, _ := fieldJson.(map[string]interface{})
-						field := s.ParseItemField(false, fieldData)
-
-						if field != nil {
-							fields = append(fields, field)
-						}
-					}
+			if detailsJson["fields"] != nil {
+				fieldsJson, _ := detailsJson["fields"].([]interface{})
+				fields := make([]*domain.ItemField, 0)
 
-					if len(fields) != 0 {
-						section := domain.NewItemSection("", fields)
-						sections = append(sections, section)
+				for _, fieldJson := range fieldsJson {
+					fieldData, _ := fieldJson.(map[string]interface{})
+					field := s.ParseItemField(false, fieldData)
+
+					if field != nil {
+						fields = append(fields, field)
 					}
 				}
-			} else {
+
+				if len(fields) != 0 {
+					section := domain.NewItemSection("", fields)
+					sections = append(sections, section)
+				}
+			}
+
+			if detailsJson["sections"] != nil {
 				sectionsJson, _ := detailsJson["sections"].([]interface{})
 
 				for _, sectionJson := range sectionsJson {
-- 
2.43.0


From c315a6361e609eb0c599fb9a784b186004e7b183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:58 +0000
Subject: [PATCH 07/32] fix: list items of the same category and title in a
 stable order

---
 1pass-core/core/service/itemservice.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/1pass-core/core/service/itemservice.go b/1pass-core/core/service/itemservice.go
index 16e6ed1..f411631 100644
--- a/1pass-core/core/service/itemservice.go
+++ b/1pass-core/core/service/itemservice.go
@@ -145,7 +145,11 @@ func (s *dfltItemService) GetSimpleItems(category *domain.ItemCategory, title st
 			return items[i].Category.GetCode() < items[j].Category.GetCode()
 		}
 
-		return items[i].Title < items[j].Title
+		if items[i].Title != items[j].Title {
+			return items[i].Title < items[j].Title
+		}
+
+		return items[i].Uid < items[j].Uid
 	})
 
 	return items
-- 
2.43.0


From 580d9e270e5c27ac87cdd8878d5213e0024bec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:01 +0000
Subject: [PATCH 08/32] fix: do not crash on a settings file that is empty or
 holds a value of another type

---
 1pass-parse/repo/file/configrepo.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/1pass-parse/repo/file/configrepo.go b/1pass-parse/repo/file/configrepo.go
index 7d4764e..3a40a74 100644
--- a/1pass-parse/repo/file/configrepo.go
+++ b/1pass-parse/repo/file/configrepo.go
@@ -46,6 +46,10 @@ func loadConfigFile(configDir string) map[string]interface{} {
 		log.Fatalln(err)
 	}
 
+	if config == nil {
+		config = make(map[string]interface{})
+	}
+
 	return config
 }
 
@@ -66,8 +70,8 @@ func (repo *fileConfigRepo) GetDefaultVault() string {
 func (repo *fileConfigRepo) GetTimeout() int {
 	timeout := 1
 
-	if repo.config["timeout"] != nil {
-		timeout = repo.config["timeout"].(int)
+	if value, ok := repo.config["timeout"].(int); ok {
+		timeout = value
 	}
 
 	return timeout
@@ -76,8 +80,8 @@ func (repo *fileConfigRepo) GetTimeout() int {
 func (repo *fileConfigRepo) GetUpdateNotification() bool {
 	notification := true
 
-	if repo.config["update-notification"] != nil {
-		notification = repo.config["update-notification"].(bool)
+	if value, ok := repo.config["update-notification"].(bool); ok {
+		notification = value
 	}
 
 	return notification
@@ -86,8 +90,8 @@ func (repo *fileConfigRepo) GetUpdateNotification() bool {
 func (repo *fileConfigRepo) GetUpdatePeriod() int {
 	period := 1
 
-	if repo.config["update-period"] != nil {
-		period = repo.config["update-period"].(int)
+	if value, ok := repo.config["update-period"].(int); ok {
+		period = value
 	}
 
 	return period
-- 
2.43.0


From baf09e0140c7a122da0a8f59d7b3106d2b7959ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:05 +0000
Subject: [PATCH 09/32] fix: do not take settings that cannot be read for
 missing ones

---
 1pass-parse/repo/file/configrepo.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/1pass-parse/repo/file/configrepo.go b/1pass-parse/repo/file/configrepo.go
index 3a40a74..b36c7c0 100644
--- a/1pass-parse/repo/file/configrepo.go
+++ b/1pass-parse/repo/file/configrepo.go
@@ -5,11 +5,13 @@
 package file
 
 import (
+	"errors"
 	"fmt"
 	"io/ioutil"
 	"log"
 	"os"
 	"path/filepath"
+	"syscall"
 
 	"github.com/mashmb/1pass/1pass-core/core/domain"
 	"gopkg.in/yaml.v2"
@@ -30,7 +32,7 @@ func NewFileConfigRepo(configDir string) *fileConfigRepo {
 func loadConfigFile(configDir string) map[string]interface{} {
 	configFile := filepath.Join(configDir, domain.ConfigFile)
 
-	if _, err := os.Stat(configFile); err != nil {
+	if _, err := os.Stat(configFile); os.IsNotExist(err) || errors.Is(err, syscall.ENOTDIR) {
 		return make(map[string]interface{})
 	}
 
-- 
2.43.0


From 8646110a19dc93748059811e327fdeb6f4524dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:10 +0000
Subject: [PATCH 10/32] fix: replace the settings file as a whole, so that an
 interrupted save loses nothing

---
 1pass-parse/repo/file/configrepo.go | 45 ++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/1pass-parse/repo/file/configrepo.go b/1pass-parse/repo/file/configrepo.go
index b36c7c0..46c410d 100644
--- a/1pass-parse/repo/file/configrepo.go
+++ b/1pass-parse/repo/file/configrepo.go
@@ -115,9 +115,52 @@ func (repo *fileConfigRepo) Save(config *domain.Config) {
 		os.MkdirAll(repo.configDir, 0700)
 	}
 
-	if err := ioutil.WriteFile(configFile, file, 0644); err != nil {
+	if err := writeConfigFile(configFile, file); err != nil {
 		log.Fatalln(err)
 	}
 
 	repo.config = loadConfigFile(repo.configDir)
 }
+
+// The file is replaced as a whole, so that an interrupted save leaves the previous settings.
+func writeConfigFile(configFile string, data []byte) error {
+	var mode os.FileMode = 0644
+
+	if target, err := filepath.EvalSymlinks(configFile); err == nil {
+		configFile = target
+	}
+
+	if info, err := os.Stat(configFile); err == nil {
+		mode = info.Mode().Perm()
+	}
+
+	tmp, err := ioutil.TempFile(filepath.Dir(configFile), domain.ConfigFile+".")
+
+	if err != nil {
+		return err
+	}
+
+	_, err = tmp.Write(data)
+
+	if err == nil {
+		err = tmp.Chmod(mode)
+	}
+
+	if err == nil {
+		err = tmp.Sync()
+	}
+
+	if closeErr := tmp.Close(); err == nil {
+		err = closeErr
+	}
+
+	if err == nil {
+		err = os.Rename(tmp.Name(), configFile)
+	}
+
+	if err != nil {
+		os.Remove(tmp.Name())
+	}
+
+	return err
+}
-- 
2.43.0


From fb2df26ae402c31452537c851923580fe72fc617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:34 +0000
Subject: [PATCH 11/32] fix: read each answer as a whole line, so that one
 answer does not spill into the next question

---
 1pass-term/control/cobra/clicontrol.go | 36 +++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/1pass-term/control/cobra/clicontrol.go b/1pass-term/control/cobra/clicontrol.go
index 69b0a51..5762b84 100644
--- a/1pass-term/control/cobra/clicontrol.go
+++ b/1pass-term/control/cobra/clicontrol.go
@@ -34,6 +34,30 @@ func NewCobraCliControl(configFacade facade.ConfigFacade, updateFacade facade.Up
 	}
 }
 
+// One line of input, read byte by byte to leave the rest of the input to the next question.
+func readAnswer() string {
+	var line []byte
+	char := make([]byte, 1)
+
+	for {
+		n, err := os.Stdin.Read(char)
+
+		if n > 0 {
+			if char[0] == '\n' {
+				break
+			}
+
+			line = append(line, char[0])
+		}
+
+		if err != nil {
+			break
+		}
+	}
+
+	return strings.TrimSpace(string(line))
+}
+
 func (ctrl *cobraCliControl) CheckForUpdate() {
 	config := ctrl.configFacade.GetConfig()
 
@@ -61,18 +85,18 @@ func (ctrl *cobraCliControl) Configure() {
 	fmt.Println("Configuring 1pass:")
 	fmt.Print(fmt.Sprintf("  1. Do you want to set default OPVault path? (%v) [y - for yes/n - for no]: ",
 		domain.LogicValEnum.No.GetName()))
-	fmt.Scanln(&confirmVal)
+	confirmVal = readAnswer()
 	confirm, err := domain.LogicValEnum.FromName(confirmVal)
 
 	if err == nil && confirm == domain.LogicValEnum.Yes {
 		fmt.Print(fmt.Sprintf("     Default OPVault path (%v): ", config.Vault))
-		fmt.Scanln(&vaultVal)
+		vaultVal = readAnswer()
 		config.Vault = strings.TrimSpace(vaultVal)
 	}
 
 	fmt.Print(fmt.Sprintf("  2. Update notifications? (%v) [y - for yes/n - for no]: ",
 		domain.LogicValEnum.FromValue(config.UpdateNotify).GetName()))
-	fmt.Scanln(&notifyVal)
+	notifyVal = readAnswer()
 	notify, err := domain.LogicValEnum.FromName(notifyVal)
 
 	if err == nil {
@@ -80,7 +104,7 @@ func (ctrl *cobraCliControl) Configure() {
 	}
 
 	fmt.Print(fmt.Sprintf("  3. Update HTTP timeout in seconds (%d) [1-30]: ", config.Timeout))
-	fmt.Scanln(&timeoutVal)
+	timeoutVal = readAnswer()
 	timeout, err := strconv.ParseInt(timeoutVal, 10, 64)
 
 	if err == nil && timeout >= 1 && timeout <= 30 {
@@ -88,7 +112,7 @@ func (ctrl *cobraCliControl) Configure() {
 	}
 
 	fmt.Print(fmt.Sprintf("  4. How often check for updates in days (%d) [0-365]: ", config.UpdatePeriod))
-	fmt.Scanln(&periodVal)
+	periodVal = readAnswer()
 	period, err := strconv.ParseInt(periodVal, 10, 64)
 
 	if err == nil && period >= 0 && period <= 365 {
@@ -360,7 +384,7 @@ func (ctrl *cobraCliControl) Update() {
 	fmt.Println(msg)
 	var permissionVal string
 	fmt.Print(fmt.Sprintf("Do you want to update now? (%v) [y - for yes/n - for no]: ", domain.LogicValEnum.No.GetName()))
-	fmt.Scanln(&permissionVal)
+	permissionVal = readAnswer()
 	permission, err := domain.LogicValEnum.FromName(permissionVal)
 
 	if err != nil || permission == domain.LogicValEnum.No {
-- 
2.43.0


From ddc76fa88bbee31d20ca2b48ce51cf18f6b64fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:38 +0000
Subject: [PATCH 12/32] fix: keep the default vault when its path is answered
 with an empty line

---
 1pass-term/control/cobra/clicontrol.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/1pass-term/control/cobra/clicontrol.go b/1pass-term/control/cobra/clicontrol.go
index 5762b84..993ea4e 100644
--- a/1pass-term/control/cobra/clicontrol.go
+++ b/1pass-term/control/cobra/clicontrol.go
@@ -91,7 +91,10 @@ func (ctrl *cobraCliControl) Configure() {
 	if err == nil && confirm == domain.LogicValEnum.Yes {
 		fmt.Print(fmt.Sprintf("     Default OPVault path (%v): ", config.Vault))
 		vaultVal = readAnswer()
-		config.Vault = strings.TrimSpace(vaultVal)
+
+		if vaultVal != "" {
+			config.Vault = strings.TrimSpace(vaultVal)
+		}
 	}
 
 	fmt.Print(fmt.Sprintf("  2. Update notifications? (%v) [y - for yes/n - for no]: ",
-- 
2.43.0


From 5f44d6f1ae11e57ae98c5af6516041d9ac6c77d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:33 +0000
Subject: [PATCH 13/32] fix: do not crash on release information of an
 unexpected form

---
 1pass-up/component/github/updater.go | 34 +++++++++++++++++++---------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 634b0a3..1b22d78 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -68,29 +68,41 @@ func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, erro
 		return nil, err
 	}
 
-	if bodyJson == nil || bodyJson[0] == nil {
+	if len(bodyJson) == 0 || bodyJson[0] == nil {
 		return nil, nil
 	}
 
-	latestJson := bodyJson[0].(map[string]interface{})
-	changelog := latestJson["body"].(string)
-	version := latestJson["tag_name"].(string)
+	latestJson, ok := bodyJson[0].(map[string]interface{})
+
+	if !ok {
+		return nil, domain.ErrInvalidData
+	}
+
+	changelog, _ := latestJson["body"].(string)
+	version, ok := latestJson["tag_name"].(string)
+
+	if !ok {
+		return nil, domain.ErrInvalidData
+	}
+
 	newer := false
 	var archiveUrl string
 	var checksumUrl string
-	assets := latestJson["assets"].([]interface{})
+	assets, _ := latestJson["assets"].([]interface{})
 
 	if assets == nil {
 		return nil, nil
 	}
 
 	for _, assetJson := range assets {
-		asset := assetJson.(map[string]interface{})
-
-		if strings.Contains(asset["name"].(string), ".tar.gz") {
-			archiveUrl = asset["browser_download_url"].(string)
-		} else if strings.Contains(asset["name"].(string), ".md5") {
-			checksumUrl = asset["browser_download_url"].(string)
+		asset, _ := assetJson.(map[string]interface{})
+		name, _ := asset["name"].(string)
+		url, _ := asset["browser_download_url"].(string)
+
+		if strings.Contains(name, ".tar.gz") {
+			archiveUrl = url
+		} else if strings.Contains(name, ".md5") {
+			checksumUrl = url
 		}
 	}
 
-- 
2.43.0


From ed382fff6a349522f04f03b3690e518de0dc8210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:38 +0000
Subject: [PATCH 14/32] fix: compare versions number by number

---
 1pass-up/component/github/updater.go | 54 +++++++++++++++++++++++++---
 1 file changed, 50 insertions(+), 4 deletions(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 1b22d78..49ce6ed 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -47,6 +47,55 @@ func httpClient(timeout int64) http.Client {
 	return httpClient
 }
 
+// Versions are compared number by number, a version that can not be read is never newer.
+func isNewer(remote, current string) bool {
+	remoteVer, err := parseVersion(remote)
+
+	if err != nil {
+		return false
+	}
+
+	currVer, err := parseVersion(current)
+
+	if err != nil {
+		return false
+	}
+
+	for i := 0; i < len(remoteVer) || i < len(currVer); i++ {
+		var remoteNum, currNum uint64
+
+		if i < len(remoteVer) {
+			remoteNum = remoteVer[i]
+		}
+
+		if i < len(currVer) {
+			currNum = currVer[i]
+		}
+
+		if remoteNum != currNum {
+			return remoteNum > currNum
+		}
+	}
+
+	return false
+}
+
+func parseVersion(version string) ([]uint64, error) {
+	var numbers []uint64
+
+	for _, part := range strings.Split(version, ".") {
+		number, err := strconv.ParseUint(part, 10, 64)
+
+		if err != nil {
+			return nil, err
+		}
+
+		numbers = append(numbers, number)
+	}
+
+	return numbers, nil
+}
+
 func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, error) {
 	httpClient := httpClient(timeout)
 	resp, err := httpClient.Get(domain.GithubReleases)
@@ -106,10 +155,7 @@ func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, erro
 		}
 	}
 
-	currVer, _ := strconv.ParseInt(strings.ReplaceAll(domain.Version, ".", ""), 10, 64)
-	remoteVer, _ := strconv.ParseInt(strings.ReplaceAll(version, ".", ""), 10, 64)
-
-	if remoteVer > currVer {
+	if isNewer(version, domain.Version) {
 		newer = true
 	}
 
-- 
2.43.0


From ea5eb06f86b0ddf017970c47b49e2b86f106e743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:43 +0000
Subject: [PATCH 15/32] fix: apply the timeout to the whole update check and to
 stalled downloads

---
 1pass-up/component/github/updater.go | 30 +++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 49ce6ed..5869702 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -31,12 +31,39 @@ func NewGithubUpdater() *githubUpdater {
 	return &githubUpdater{}
 }
 
+// Connection that fails when the other side is silent for longer than the timeout.
+type timeoutConn struct {
+	net.Conn
+	timeout time.Duration
+}
+
+func (c *timeoutConn) Read(b []byte) (int, error) {
+	if err := c.Conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {
+		return 0, err
+	}
+
+	return c.Conn.Read(b)
+}
+
+func (c *timeoutConn) Write(b []byte) (int, error) {
+	if err := c.Conn.SetWriteDeadline(time.Now().Add(c.timeout)); err != nil {
+		return 0, err
+	}
+
+	return c.Conn.Write(b)
+}
+
 func httpClient(timeout int64) http.Client {
 	httpTransport := http.Transport{
 		Dial: func(network, address string) (net.Conn, error) {
 			tout := time.Duration(timeout) * time.Second
+			conn, err := net.DialTimeout(network, address, tout)
+
+			if err != nil {
+				return nil, err
+			}
 
-			return net.DialTimeout(network, address, tout)
+			return &timeoutConn{Conn: conn, timeout: tout}, nil
 		},
 	}
 
@@ -98,6 +125,7 @@ func parseVersion(version string) ([]uint64, error) {
 
 func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, error) {
 	httpClient := httpClient(timeout)
+	httpClient.Timeout = time.Duration(timeout) * time.Second
 	resp, err := httpClient.Get(domain.GithubReleases)
 
 	if err != nil {
-- 
2.43.0


From 043f95e503830fae0826c1298964bc40e1241cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:49 +0000
Subject: [PATCH 16/32] fix: refuse downloads and redirects that are not
 encrypted

---
 1pass-core/core/domain/error.go      |  2 ++
 1pass-up/component/github/updater.go | 26 ++++++++++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/1pass-core/core/domain/error.go b/1pass-core/core/domain/error.go
index f867cb0..07fb111 100644
--- a/1pass-core/core/domain/error.go
+++ b/1pass-core/core/domain/error.go
@@ -9,12 +9,14 @@ import (
 )
 
 var (
+	ErrInsecureUrl     = errors.New("insecure URL")
 	ErrInvalidData     = errors.New("invalid data")
 	ErrInvalidMd5      = errors.New("invalid MD5 checksum")
 	ErrInvalidHmac     = errors.New("invalid HMAC")
 	ErrInvalidPass     = errors.New("invalid password")
 	ErrInvalidVault    = errors.New("invalid vault (%v)")
 	ErrNoUpdate        = errors.New("up to date")
+	ErrRedirects       = errors.New("too many redirects")
 	ErrUnknownDataType = errors.New("unknown data type")
 	ErrUnknownItemCat  = errors.New("unknown item category")
 	ErrUnknownLogicVal = errors.New("unknown logic value")
diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 5869702..16aea2d 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -16,6 +16,7 @@ import (
 	"math"
 	"net"
 	"net/http"
+	neturl "net/url"
 	"os"
 	"path/filepath"
 	"strconv"
@@ -69,11 +70,26 @@ func httpClient(timeout int64) http.Client {
 
 	httpClient := http.Client{
 		Transport: &httpTransport,
+		CheckRedirect: func(req *http.Request, via []*http.Request) error {
+			if len(via) >= 10 {
+				return domain.ErrRedirects
+			}
+
+			return requireHttps(req.URL)
+		},
 	}
 
 	return httpClient
 }
 
+func requireHttps(url *neturl.URL) error {
+	if url.Scheme != "https" {
+		return domain.ErrInsecureUrl
+	}
+
+	return nil
+}
+
 // Versions are compared number by number, a version that can not be read is never newer.
 func isNewer(remote, current string) bool {
 	remoteVer, err := parseVersion(remote)
@@ -202,6 +218,16 @@ func (up *githubUpdater) CheckTimestamp(dirPath string) {
 }
 
 func (up *githubUpdater) DownloadFile(destination, url string, timeout int64) error {
+	source, err := neturl.Parse(url)
+
+	if err != nil {
+		return err
+	}
+
+	if err := requireHttps(source); err != nil {
+		return err
+	}
+
 	httpClient := httpClient(timeout)
 	resp, err := httpClient.Get(url)
 
-- 
2.43.0


From 1a1afcd7a8054a921da8a8b5370d0208d529e168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:31 +0000
Subject: [PATCH 17/32] fix: do not crash on an empty checksum file

---
 1pass-up/component/github/updater.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 16aea2d..756fa9d 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -367,7 +367,7 @@ func (up *githubUpdater) ValidateChecksum(binary, file string) error {
 	bytes := hash.Sum(nil)
 	calculated := hex.EncodeToString(bytes)
 
-	if chunks[0] != calculated {
+	if len(chunks) == 0 || chunks[0] != calculated {
 		return domain.ErrInvalidMd5
 	}
 
-- 
2.43.0


From c49def723d6474b7288dc400d02fd4a8ab46f290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:36 +0000
Subject: [PATCH 18/32] fix: extract an archive only into the given directory
 and never over existing files

---
 1pass-up/component/github/updater.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 756fa9d..c654d78 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -283,7 +283,12 @@ func (up *githubUpdater) ExtractArchive(src, dst string) error {
 		target := filepath.Join(dst, header.Name)
 
 		if header.Typeflag == tar.TypeReg {
-			file, err := os.Create(target)
+			// only new files, and only in the directory itself
+			if filepath.Dir(target) != filepath.Clean(dst) {
+				return domain.ErrInvalidData
+			}
+
+			file, err := os.OpenFile(target, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
 
 			if err != nil {
 				return err
-- 
2.43.0


From 38ad5639edeec2c9c091e10351449399ddaec8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:40 +0000
Subject: [PATCH 19/32] fix: install the new binary at once, executable,
 completely written and from any file system

---
 1pass-up/component/github/updater.go | 54 +++++++++++++++++++++++++++-
 1 file changed, 53 insertions(+), 1 deletion(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index c654d78..5e0b363 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -310,13 +310,65 @@ func (up *githubUpdater) ReplaceBinary(src string) error {
 		return err
 	}
 
-	if err := os.Rename(src, dst); err != nil {
+	info, err := os.Stat(dst)
+
+	if err != nil {
+		return err
+	}
+
+	// The copy beside the binary allows to replace it at once, from any file system.
+	tmp, err := copyBeside(src, dst, info.Mode())
+
+	if err != nil {
+		return err
+	}
+
+	if err := os.Rename(tmp, dst); err != nil {
+		os.Remove(tmp)
+
 		return err
 	}
 
 	return nil
 }
 
+func copyBeside(src, dst string, mode os.FileMode) (string, error) {
+	in, err := os.Open(src)
+
+	if err != nil {
+		return "", err
+	}
+
+	defer in.Close()
+	out, err := ioutil.TempFile(filepath.Dir(dst), "."+domain.AppName+"-")
+
+	if err != nil {
+		return "", err
+	}
+
+	_, err = io.Copy(out, in)
+
+	if err == nil {
+		err = out.Chmod(mode)
+	}
+
+	if err == nil {
+		err = out.Sync()
+	}
+
+	if closeErr := out.Close(); err == nil {
+		err = closeErr
+	}
+
+	if err != nil {
+		os.Remove(out.Name())
+
+		return "", err
+	}
+
+	return out.Name(), nil
+}
+
 func (up *githubUpdater) ShouldCheck(period int, dirPath string) bool {
 	should := false
 	lastCheckFile := filepath.Join(dirPath, domain.LastCheckFile)
-- 
2.43.0


From 20bab3257e0c5c6c6cd0a312acc5fa8002c2b0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:58 +0000
Subject: [PATCH 20/32] fix: give every update a directory of its own, so that
 two updates do not mix their files

---
 1pass-core/core/service/updateservice.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/1pass-core/core/service/updateservice.go b/1pass-core/core/service/updateservice.go
index cee2047..91b5a7d 100644
--- a/1pass-core/core/service/updateservice.go
+++ b/1pass-core/core/service/updateservice.go
@@ -5,6 +5,7 @@
 package service
 
 import (
+	"io/ioutil"
 	"os"
 	"path/filepath"
 
@@ -72,8 +73,15 @@ func (s *dfltUpdateService) Update(timeout int, stage func(int)) error {
 			return err
 		}
 
-		archive := filepath.Join(domain.CacheDir, domain.Archive)
-		checksum := filepath.Join(domain.CacheDir, domain.Checksum)
+		// Every update has a directory of its own, an update running meanwhile can not put its files there.
+		cacheDir, err := ioutil.TempDir(domain.CacheDir, domain.AppName)
+
+		if err != nil {
+			return err
+		}
+
+		archive := filepath.Join(cacheDir, domain.Archive)
+		checksum := filepath.Join(cacheDir, domain.Checksum)
 		stage(2)
 
 		if err := s.updater.DownloadFile(archive, info.ArchiveUrl, int64(timeout)); err != nil {
@@ -88,11 +96,11 @@ func (s *dfltUpdateService) Update(timeout int, stage func(int)) error {
 
 		stage(4)
 
-		if err := s.updater.ExtractArchive(archive, domain.CacheDir); err != nil {
+		if err := s.updater.ExtractArchive(archive, cacheDir); err != nil {
 			return err
 		}
 
-		binary := filepath.Join(domain.CacheDir, domain.AppName)
+		binary := filepath.Join(cacheDir, domain.AppName)
 
 		stage(5)
 
-- 
2.43.0


From 6b3c0f25de879b37e592fa23a8d13ae1cd689748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:44 +0000
Subject: [PATCH 21/32] fix: do not wait for a check recorded in the future,
 after the clock was set back

---
 1pass-up/component/github/updater.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 5e0b363..677fc98 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -393,6 +393,10 @@ func (up *githubUpdater) ShouldCheck(period int, dirPath string) bool {
 	now := time.Now()
 	between := math.Abs(now.Sub(timestamp).Hours() / 24)
 
+	if timestamp.After(now) {
+		should = true
+	}
+
 	if int(between) >= period {
 		should = true
 	}
-- 
2.43.0


From 3c77ea97f71098ad931e509a4be599e08a61eba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:39 +0000
Subject: [PATCH 22/32] fix: open the last category itself when the vault has
 no trashed items

---
 1pass-app/gui/1passwidget.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index 50f5dbd..27ef7cb 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -180,16 +180,12 @@ func (ow *onepassWidget) showItems(ui *gocui.Gui, view *gocui.View) error {
 
 		var items []*domain.SimpleItem
 
-		if len(ow.categories) == 1 {
+		if category := ow.categories[ow.currIdx]; category != nil {
+			items = ow.guiControl.GetItems(category, false)
+		} else if ow.currIdx == len(ow.categories)-1 {
 			items = ow.guiControl.GetItems(nil, true)
 		} else {
-			if ow.currIdx == len(ow.categories)-1 {
-				items = ow.guiControl.GetItems(nil, true)
-			} else if ow.currIdx == 0 {
-				items = ow.guiControl.GetItems(nil, false)
-			} else {
-				items = ow.guiControl.GetItems(ow.categories[ow.currIdx], false)
-			}
+			items = ow.guiControl.GetItems(nil, false)
 		}
 
 		ow.itemsWidget.items = items
-- 
2.43.0


From 41e81006703f8dfde0b68ea30d4c82b5db701033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:43 +0000
Subject: [PATCH 23/32] fix: highlight the first category after a scrolled list
 was locked

---
 1pass-app/gui/1passwidget.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index 27ef7cb..5fba3b0 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -132,13 +132,15 @@ func (ow *onepassWidget) promptForPassword(ui *gocui.Gui) error {
 
 func (ow *onepassWidget) resetCursor(view *gocui.View) error {
 	if view != nil {
-		ox, oy := view.Origin()
+		ox, _ := view.Origin()
 		cx, _ := view.Cursor()
 
-		if err := view.SetCursor(cx, 0); err != nil && oy > 0 {
-			if err := view.SetOrigin(ox, 0); err != nil {
-				return err
-			}
+		if err := view.SetCursor(cx, 0); err != nil {
+			return err
+		}
+
+		if err := view.SetOrigin(ox, 0); err != nil {
+			return err
 		}
 	}
 
-- 
2.43.0


From b0c475766f8e2faa7ffccb12582d169e2b3994dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:48 +0000
Subject: [PATCH 24/32] fix: show an item from its start after scrolling both
 right and down

---
 1pass-app/gui/detailswidget.go | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/1pass-app/gui/detailswidget.go b/1pass-app/gui/detailswidget.go
index 8889b36..b927a7c 100644
--- a/1pass-app/gui/detailswidget.go
+++ b/1pass-app/gui/detailswidget.go
@@ -39,18 +39,8 @@ func newDetailsWidget(parent string, helpWidget *helpWidget, lockHandler func(ui
 
 func (dw *detailsWidget) resetOrigin(view *gocui.View) error {
 	if view != nil {
-		ox, oy := view.Origin()
-
-		if ox > 0 {
-			if err := view.SetOrigin(0, oy); err != nil {
-				return err
-			}
-		}
-
-		if oy > 0 {
-			if err := view.SetOrigin(ox, 0); err != nil {
-				return err
-			}
+		if err := view.SetOrigin(0, 0); err != nil {
+			return err
 		}
 	}
 
-- 
2.43.0


From a526315402816cc79e14cdebf761310330f99ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:52 +0000
Subject: [PATCH 25/32] fix: do not strip spaces off the password typed in the
 interface

---
 1pass-app/gui/1passwidget.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index 5fba3b0..1c5ef71 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -149,7 +149,7 @@ func (ow *onepassWidget) resetCursor(view *gocui.View) error {
 }
 
 func (ow *onepassWidget) unlock(ui *gocui.Gui, view *gocui.View) error {
-	password := strings.TrimSpace(view.ViewBuffer())
+	password := strings.TrimSuffix(view.ViewBuffer(), "\n")
 
 	if err := ui.DeleteView(ow.passPrompt.name); err != nil {
 		return err
-- 
2.43.0


From 62587ce0f99821208d1ec45f256c1c965bcf3633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:56 +0000
Subject: [PATCH 26/32] fix: show the outcome of the update check as soon as it
 is known

---
 1pass-app/gui/versionwidget.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/1pass-app/gui/versionwidget.go b/1pass-app/gui/versionwidget.go
index df3732b..e75ea4a 100644
--- a/1pass-app/gui/versionwidget.go
+++ b/1pass-app/gui/versionwidget.go
@@ -29,18 +29,27 @@ func newVerWidget(version string, guiControl in.GuiControl) *verWidget {
 }
 
 func (vw *verWidget) update(ui *gocui.Gui) {
-	view, _ := ui.View(vw.name)
 	info, err := vw.guiControl.CheckForUpdate()
 
-	if err != nil {
-		if err == domain.ErrNoUpdate {
-			fmt.Fprint(view, fmt.Sprintf("(%v)", err))
+	ui.Update(func(ui *gocui.Gui) error {
+		view, viewErr := ui.View(vw.name)
+
+		if viewErr != nil {
+			return viewErr
+		}
+
+		if err != nil {
+			if err == domain.ErrNoUpdate {
+				fmt.Fprint(view, fmt.Sprintf("(%v)", err))
+			} else {
+				fmt.Fprint(view, "(update check failed - run '1pass update' for more info)")
+			}
 		} else {
-			fmt.Fprint(view, "(update check failed - run '1pass update' for more info)")
+			fmt.Fprint(view, fmt.Sprintf("(new version is available: v%v - run '1pass update' to upgrade)", info.Version))
 		}
-	} else {
-		fmt.Fprint(view, fmt.Sprintf("(new version is available: v%v - run '1pass update' to upgrade)", info.Version))
-	}
+
+		return nil
+	})
 }
 
 func (vw *verWidget) Layout(ui *gocui.Gui) error {
-- 
2.43.0


From 0eff5a4253230d521e7aca9ee0b7f78c39cb2976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:01 +0000
Subject: [PATCH 27/32] fix: unlock with the master password the vault has now,
 not the one it had at the start

---
 1pass-core/core/facade/vaultfacade.go |  4 ++++
 1pass-parse/repo/file/profilerepo.go  | 16 ++++++++--------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/1pass-core/core/facade/vaultfacade.go b/1pass-core/core/facade/vaultfacade.go
index cc9951a..088f1c8 100644
--- a/1pass-core/core/facade/vaultfacade.go
+++ b/1pass-core/core/facade/vaultfacade.go
@@ -55,6 +55,10 @@ func (f *dfltVaultFacade) Lock() {
 }
 
 func (f *dfltVaultFacade) Unlock(vault *domain.Vault, password string) error {
+	if err := f.vaultService.ValidateVault(vault); err != nil {
+		return err
+	}
+
 	derivedKey, derivedMac, err := f.keyService.DerivedKeys(password)
 
 	if err != nil {
diff --git a/1pass-parse/repo/file/profilerepo.go b/1pass-parse/repo/file/profilerepo.go
index aaa052e..d2c3aa4 100644
--- a/1pass-parse/repo/file/profilerepo.go
+++ b/1pass-parse/repo/file/profilerepo.go
@@ -38,15 +38,15 @@ func (repo *fileProfileRepo) GetSalt() string {
 }
 
 func (repo *fileProfileRepo) LoadProfile(vault *domain.Vault) {
-	if repo.profileJson == nil {
-		file, err := ioutil.ReadFile(filepath.Join(vault.Path, domain.ProfileDir, domain.ProfileFile))
+	file, err := ioutil.ReadFile(filepath.Join(vault.Path, domain.ProfileDir, domain.ProfileFile))
 
-		if err != nil {
-			log.Fatalln(err)
-		}
+	if err != nil {
+		log.Fatalln(err)
+	}
+
+	repo.profileJson = nil
 
-		if err := json.Unmarshal(file[12:len(file)-1], &repo.profileJson); err != nil {
-			log.Fatalln(err)
-		}
+	if err := json.Unmarshal(file[12:len(file)-1], &repo.profileJson); err != nil {
+		log.Fatalln(err)
 	}
 }
-- 
2.43.0


From 5cdbc50d061374d6182439e7add5ba89e50df760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:37 +0000
Subject: [PATCH 28/32] fix: keep passwords longer than the prompt as they are
 typed

---
 1pass-app/gui/passprompt.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/1pass-app/gui/passprompt.go b/1pass-app/gui/passprompt.go
index 4532fb9..4b7530b 100644
--- a/1pass-app/gui/passprompt.go
+++ b/1pass-app/gui/passprompt.go
@@ -22,6 +22,16 @@ func newPasswordPrompt(handler func(ui *gocui.Gui, view *gocui.View) error) *pas
 	}
 }
 
+func (pp *passwordPrompt) edit(view *gocui.View, key gocui.Key, ch rune, mod gocui.Modifier) {
+	gocui.DefaultEditor.Edit(view, key, ch, mod)
+	maxX, _ := view.Size()
+
+	if cx, cy := view.Cursor(); cx >= maxX {
+		// scrolling puts cursor one column too far, what leaves gaps in long passwords
+		view.SetCursor(maxX-1, cy)
+	}
+}
+
 func (pp *passwordPrompt) Keybindings(ui *gocui.Gui) error {
 	if err := ui.SetKeybinding(pp.name, gocui.KeyEnter, gocui.ModNone, pp.handler); err != nil {
 		return err
@@ -43,6 +53,7 @@ func (pp *passwordPrompt) Layout(ui *gocui.Gui) error {
 		view.Title = pp.title
 		view.Editable = true
 		view.Mask = '*'
+		view.Editor = gocui.EditorFunc(pp.edit)
 
 		if _, err := ui.SetCurrentView(pp.name); err != nil {
 			return err
-- 
2.43.0


From 84e7c8b67405b570ac70188e26c8b57609f52701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:08 +0000
Subject: [PATCH 29/32] fix: exit with an error status on an unknown command,
 flag or missing argument

---
 1pass-app/cli/cobra.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/1pass-app/cli/cobra.go b/1pass-app/cli/cobra.go
index f623b27..6551389 100644
--- a/1pass-app/cli/cobra.go
+++ b/1pass-app/cli/cobra.go
@@ -6,6 +6,7 @@ package cli
 
 import (
 	"fmt"
+	"os"
 
 	"github.com/mashmb/1pass/1pass-app/gui"
 	"github.com/mashmb/1pass/1pass-core/port/in"
@@ -153,5 +154,6 @@ func (cli *cobraCli) Run() {
 
 	if err := rootCmd.Execute(); err != nil {
 		fmt.Println(err)
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From f125e3d1986b1e2f3b58eae1b3e557fc361b71f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:22 +0000
Subject: [PATCH 30/32] fix: do not crash on a profile that is too short or
 lacks a property

---
 1pass-parse/repo/file/profilerepo.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/1pass-parse/repo/file/profilerepo.go b/1pass-parse/repo/file/profilerepo.go
index d2c3aa4..a8bc1a9 100644
--- a/1pass-parse/repo/file/profilerepo.go
+++ b/1pass-parse/repo/file/profilerepo.go
@@ -22,19 +22,27 @@ func NewFileProfileRepo() *fileProfileRepo {
 }
 
 func (repo *fileProfileRepo) GetIterations() int {
-	return int(repo.profileJson["iterations"].(float64))
+	iterations, _ := repo.profileJson["iterations"].(float64)
+
+	return int(iterations)
 }
 
 func (repo *fileProfileRepo) GetMasterKey() string {
-	return repo.profileJson["masterKey"].(string)
+	masterKey, _ := repo.profileJson["masterKey"].(string)
+
+	return masterKey
 }
 
 func (repo *fileProfileRepo) GetOverviewKey() string {
-	return repo.profileJson["overviewKey"].(string)
+	overviewKey, _ := repo.profileJson["overviewKey"].(string)
+
+	return overviewKey
 }
 
 func (repo *fileProfileRepo) GetSalt() string {
-	return repo.profileJson["salt"].(string)
+	salt, _ := repo.profileJson["salt"].(string)
+
+	return salt
 }
 
 func (repo *fileProfileRepo) LoadProfile(vault *domain.Vault) {
@@ -44,6 +52,10 @@ func (repo *fileProfileRepo) LoadProfile(vault *domain.Vault) {
 		log.Fatalln(err)
 	}
 
+	if len(file) < 13 {
+		log.Fatalln(domain.ProfileFile + " is not a valid profile")
+	}
+
 	repo.profileJson = nil
 
 	if err := json.Unmarshal(file[12:len(file)-1], &repo.profileJson); err != nil {
-- 
2.43.0


From 6e075a3b28adb68636b36e54d31aeb5b4c5ceefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:44 +0000
Subject: [PATCH 31/32] fix: numeric values of other field kinds were shown in
 scientific notation

---
 1pass-core/core/service/itemservice.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/1pass-core/core/service/itemservice.go b/1pass-core/core/service/itemservice.go
index f411631..677c15e 100644
--- a/1pass-core/core/service/itemservice.go
+++ b/1pass-core/core/service/itemservice.go
@@ -173,17 +173,18 @@ func (s *dfltItemService) ParseItemField(fromSection bool, data map[string]inter
 			kind, _ := data["k"].(string)
 			name, _ := data["t"].(string)
 			dataType, err := domain.DataTypeEnum.FromName(kind)
+			value = fmt.Sprint(data["v"])
 
-			if err != nil {
-				value = fmt.Sprint(data["v"])
-			} else {
+			if number, ok := data["v"].(float64); ok {
+				value = strconv.FormatFloat(number, 'f', -1, 64)
+			}
+
+			if err == nil {
 				if dataType == domain.DataTypeEnum.Address {
 					address, _ := data["v"].(map[string]interface{})
 					value = domain.DataTypeEnum.ParseValue(dataType, "", address)
-				} else if number, ok := data["v"].(float64); ok {
-					value = domain.DataTypeEnum.ParseValue(dataType, strconv.FormatFloat(number, 'f', -1, 64), nil)
 				} else {
-					value = domain.DataTypeEnum.ParseValue(dataType, fmt.Sprint(data["v"]), nil)
+					value = domain.DataTypeEnum.ParseValue(dataType, value, nil)
 				}
 			}
 
-- 
2.43.0


From 9ef28596d6658200380a64d83e594073a19313f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:39 +0000
Subject: [PATCH 32/32] fix: refuse a band file that was cut short instead of
 showing the items left in it

---
 1pass-parse/repo/file/itemrepo.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/1pass-parse/repo/file/itemrepo.go b/1pass-parse/repo/file/itemrepo.go
index aed65d4..544599e 100644
--- a/1pass-parse/repo/file/itemrepo.go
+++ b/1pass-parse/repo/file/itemrepo.go
@@ -5,6 +5,7 @@
 package file
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
@@ -136,7 +137,8 @@ func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 				log.Fatalln(err)
 			}
 
-			if len(file) < 7 {
+			// A file cut short at the right place would still hold some valid items.
+			if !bytes.HasPrefix(file, []byte("ld({")) || !bytes.HasSuffix(file, []byte("});")) {
 				log.Fatalln(fmt.Errorf("%v is not a valid band file", bandFile))
 			}
 
-- 
2.43.0

