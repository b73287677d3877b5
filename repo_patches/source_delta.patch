From 123b6145d4c75c7a37921230e45006548a4c9347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:02 +0000
Subject: [PATCH 01/36] fix: ihex32 keeps applying upper addresses after an
 extended address record of 0000

---
 ihex32/record.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ihex32/record.go b/ihex32/record.go
index 1be74d5..9e5b732 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -66,7 +66,7 @@ forLoop:
 			offs = recs[i].offset
 			firstRecordAfterNewOffset = true
 		} else if recs[i].recordType == dataRecordToken {
-			if firstRecordAfterNewOffset && recs[i].offset == offs {
+			if firstRecordAfterNewOffset && recs[i].offset == offs && offs != "0000" /*0000 is also the init value and therefore no sign of an earlier update*/ {
 				recs[i].rwm.Unlock()
 				break forLoop
 			} else if firstRecordAfterNewOffset && recs[i].offset != offs {
-- 
2.43.0


From 0cd13a26f0db2623aa637052acf265e8d87dd19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:39 +0000
Subject: [PATCH 02/36] fix: hex readers report malformed, truncated and
 unsupported records instead of dropping them

---
 ihex32/hex.go    | 24 ++++++++++++++++++++----
 ihex32/record.go | 22 ++++++++++++++++++----
 ihex32/tokens.go |  6 +++---
 srec19/hex.go    | 29 ++++++++++++++++++++++++-----
 srec19/record.go | 25 +++++++++++++++++++++----
 srec19/tokens.go |  3 +++
 6 files changed, 89 insertions(+), 20 deletions(-)

diff --git a/ihex32/hex.go b/ihex32/hex.go
index 841b826..74bebe2 100644
--- a/ihex32/hex.go
+++ b/ihex32/hex.go
@@ -110,6 +110,8 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 	//this way we can ensure that the order of the records remains correct
 	//because the positions of the return values are determined by the position of the channel within locRecord
 	var locRecord []chan []*record
+	//recErrors collects the errors of lines that could not be parsed. each routine sends at most one error.
+	recErrors := make(chan error, numProc)
 	for i := 0; i < numProc; i++ {
 		//calculate start and end for the slices each go routine is given to parse
 		start := (len(lines) / numProc) * i
@@ -120,7 +122,7 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 		}
 		c := make(chan []*record, len(lines))
 		locRecord = append(locRecord, c)
-		go parseRecordRoutine(c, lines[start:end])
+		go parseRecordRoutine(c, recErrors, lines[start:end])
 	}
 	//collect records from channels
 	for _, c := range locRecord {
@@ -128,6 +130,11 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 			recs = append(recs, r...)
 		}
 	}
+	//all routines have closed their channels by now, so no more errors can be sent
+	close(recErrors)
+	for err = range recErrors {
+		return h, err
+	}
 
 	//apply offsets to all records
 	wgOffset := new(sync.WaitGroup)
@@ -171,6 +178,8 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 
 	//calculate final data structure
 	var locData []chan []dataByte
+	//dataErrors collects the errors of records whose data could not be calculated. each routine sends at most one error.
+	dataErrors := make(chan error, numProc)
 	for i := 0; i < numProc; i++ {
 		//calculate start and end for the slices each go routine is given to calculate the final data from
 		start := (len(recs) / numProc) * i
@@ -180,7 +189,7 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 			end = len(recs)
 		}
 		c := make(chan []dataByte, 1)
-		go calcDataRoutine(c, recs[start:end])
+		go calcDataRoutine(c, dataErrors, recs[start:end])
 		locData = append(locData, c)
 	}
 	//collect data from channels
@@ -197,6 +206,11 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 			}
 		}
 	}
+	//all routines have closed their channels by now, so no more errors can be sent
+	close(dataErrors)
+	for err = range dataErrors {
+		return h, err
+	}
 
 	return h, nil
 }
@@ -238,14 +252,16 @@ func ParseFromFile(filepath string) (map[uint32]byte, error) {
 }
 
 // parseRecordRoutine calls the parseRecord method for each line given and return them via a channel.
-func parseRecordRoutine(c chan []*record, lines []string) {
+func parseRecordRoutine(c chan []*record, ce chan error, lines []string) {
 	var recs []*record
 forLoop:
 	for _, l := range lines {
-		if len(l) >= 11 {
+		//skip blank lines and the end of file character some tools append
+		if strings.Trim(l, " \t\r\n\x1a") != "" {
 			r, err := parseRecord(l)
 			if err != nil {
 				log.Err(err)
+				ce <- err
 				break forLoop
 			}
 			recs = append(recs, r)
diff --git a/ihex32/record.go b/ihex32/record.go
index 9e5b732..eb4126f 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -28,6 +28,14 @@ type record struct {
 func parseRecord(line string) (*record, error) {
 	r := record{}
 	if line[0] == beginLineToken[0] && len(line) >= 11 {
+		n, err := hexToByte(line[1:3])
+		if err != nil {
+			return &r, err
+		}
+		if len(line) != 11+2*int(n) {
+			err = errors.New("length of entry does not match its byte count")
+			return &r, err
+		}
 		r.byteCount = line[1:3]
 		r.addressField = line[3:7]
 		r.recordType = line[7:9]
@@ -35,14 +43,18 @@ func parseRecord(line string) (*record, error) {
 			r.data = append(r.data, line[i:i+2])
 		}
 		if r.recordType == extendedLinearAddressRecordToken {
-			if len(line) >= 13 {
+			if n == 2 {
 				r.offset = line[9:13]
 			} else {
 				err := errors.New("line is too short to parse extended address record")
 				return &r, err
 			}
-		} else {
+		} else if r.recordType == dataRecordToken || r.recordType == endOfFileToken ||
+			r.recordType == startSegmentAddressRecordToken || r.recordType == startLinearAddressRecordToken {
 			r.offset = "0000"
+		} else {
+			err := errors.New("unsupported record type " + r.recordType)
+			return &r, err
 		}
 		r.checksum = line[len(line)-2:]
 		return &r, nil
@@ -150,15 +162,17 @@ func (r *record) validateChecksum() (bool, error) {
 	}
 }
 
-func calcDataRoutine(c chan []dataByte, recs []*record) {
+func calcDataRoutine(c chan []dataByte, ce chan error, recs []*record) {
 	var d []dataByte
 	var ds []dataByte
 	var err error
+forLoop:
 	for _, r := range recs {
 		if r.recordType == dataRecordToken {
 			d, err = r.calcDataEntries()
 			if err != nil {
-				c <- []dataByte{}
+				ce <- err
+				break forLoop
 			}
 			ds = append(ds, d...)
 		}
diff --git a/ihex32/tokens.go b/ihex32/tokens.go
index 8cf284d..458f7f7 100644
--- a/ihex32/tokens.go
+++ b/ihex32/tokens.go
@@ -4,10 +4,10 @@ package ihex32
 const beginLineToken = ":"
 const dataRecordToken = "00"
 
-//const endOfFileToken = "01"
+const endOfFileToken = "01"
 
 //const extendedSegmentAddressRecordToken = "02"
-//const startSegmentAddressRecordToken = "03"
+const startSegmentAddressRecordToken = "03"
 const extendedLinearAddressRecordToken = "04"
 
-//const startLinearAddressRecordToken = "05"
+const startLinearAddressRecordToken = "05"
diff --git a/srec19/hex.go b/srec19/hex.go
index 20a7a6b..0a7b861 100644
--- a/srec19/hex.go
+++ b/srec19/hex.go
@@ -110,6 +110,8 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 	//this way we can ensure that the order of the records remains correct
 	//because the positions of the return values are determined by the position of the channel within locRecord
 	var locRecord []chan []*record
+	//recErrors collects the errors of lines that could not be parsed. each routine sends at most one error.
+	recErrors := make(chan error, numProc)
 	for i := 0; i < numProc; i++ {
 		//calculate start and end for the slices each go routine is given to parse
 		start := (len(lines) / numProc) * i
@@ -120,7 +122,7 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 		}
 		c := make(chan []*record, len(lines))
 		locRecord = append(locRecord, c)
-		go parseRecordRoutine(c, lines[start:end])
+		go parseRecordRoutine(c, recErrors, lines[start:end])
 	}
 	//collect records from channels
 	for _, c := range locRecord {
@@ -128,6 +130,11 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 			recs = append(recs, r...)
 		}
 	}
+	//all routines have closed their channels by now, so no more errors can be sent
+	close(recErrors)
+	for err = range recErrors {
+		return h, err
+	}
 
 	if validateChecksums {
 		//start validation of all checksums
@@ -160,6 +167,8 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 
 	//calculate final data structure
 	var locData []chan []dataByte
+	//dataErrors collects the errors of records whose data could not be calculated. each routine sends at most one error.
+	dataErrors := make(chan error, numProc)
 	for i := 0; i < numProc; i++ {
 		//calculate start and end for the slices each go routine is given to calculate the final data from
 		start := (len(recs) / numProc) * i
@@ -169,7 +178,7 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 			end = len(recs)
 		}
 		c := make(chan []dataByte, 1)
-		go calcDataRoutine(c, recs[start:end])
+		go calcDataRoutine(c, dataErrors, recs[start:end])
 		locData = append(locData, c)
 	}
 	//collect data from channels
@@ -186,6 +195,11 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 			}
 		}
 	}
+	//all routines have closed their channels by now, so no more errors can be sent
+	close(dataErrors)
+	for err = range dataErrors {
+		return h, err
+	}
 
 	return h, nil
 }
@@ -227,17 +241,22 @@ func ParseFromFile(filepath string) (map[uint32]byte, error) {
 }
 
 // parseRecordRoutine calls the parseRecord method for each line given and return them via a channel.
-func parseRecordRoutine(c chan []*record, lines []string) {
+func parseRecordRoutine(c chan []*record, ce chan error, lines []string) {
 	var recs []*record
 forLoop:
 	for _, l := range lines {
-		if len(l) >= 11 {
+		//skip blank lines and the end of file character some tools append
+		if strings.Trim(l, " \t\r\n\x1a") != "" {
 			r, err := parseRecord(l)
 			if err != nil {
 				log.Err(err)
+				ce <- err
 				break forLoop
 			}
-			recs = append(recs, r)
+			//header, count and termination records carry no data
+			if r.recordType == dataRecordToken {
+				recs = append(recs, r)
+			}
 		}
 	}
 	c <- recs
diff --git a/srec19/record.go b/srec19/record.go
index 3d7a057..b469ba0 100644
--- a/srec19/record.go
+++ b/srec19/record.go
@@ -3,6 +3,7 @@ package srec19
 import (
 	"encoding/binary"
 	"errors"
+	"strings"
 	"sync"
 )
 
@@ -26,8 +27,20 @@ type record struct {
 // parseRecord takes a line as string and fills the respective fields in the record struct.
 func parseRecord(line string) (*record, error) {
 	r := record{}
+	if len(line) < 4 || line[0] != beginLineToken[0] {
+		err := errors.New("entry has no begin line symbol or is too short")
+		return &r, err
+	}
+	n, err := hexToByte(line[2:4])
+	if err != nil {
+		return &r, err
+	}
+	if len(line) != 4+2*int(n) {
+		err = errors.New("length of entry does not match its byte count")
+		return &r, err
+	}
 	r.recordType = line[1:2]
-	if line[0] == beginLineToken[0] && r.recordType == "3" && len(line) >= 12 {
+	if r.recordType == dataRecordToken && len(line) >= 14 {
 		r.byteCount = line[2:4]
 		r.addressField = line[4:12]
 		for i := 12; i < len(line)-3; i += 2 {
@@ -35,8 +48,10 @@ func parseRecord(line string) (*record, error) {
 		}
 		r.checksum = line[len(line)-2:]
 		return &r, nil
+	} else if strings.Contains(noDataRecordTokens, r.recordType) {
+		return &r, nil
 	} else {
-		err := errors.New("entry has no begin line symbol or is too short")
+		err := errors.New("entry is too short or has an unsupported record type")
 		return &r, err
 	}
 
@@ -118,15 +133,17 @@ func (r *record) validateChecksum() (bool, error) {
 	}
 }
 
-func calcDataRoutine(c chan []dataByte, recs []*record) {
+func calcDataRoutine(c chan []dataByte, ce chan error, recs []*record) {
 	var d []dataByte
 	var ds []dataByte
 	var err error
+forLoop:
 	for _, r := range recs {
 		if r.recordType == dataRecordToken {
 			d, err = r.calcDataEntries()
 			if err != nil {
-				c <- []dataByte{}
+				ce <- err
+				break forLoop
 			}
 			ds = append(ds, d...)
 		}
diff --git a/srec19/tokens.go b/srec19/tokens.go
index 1e04b8d..90e918a 100644
--- a/srec19/tokens.go
+++ b/srec19/tokens.go
@@ -3,3 +3,6 @@ package srec19
 //const emptyToken = ""
 const beginLineToken = "S"
 const dataRecordToken = "3"
+
+//noDataRecordTokens lists the types of header, count and termination records
+const noDataRecordTokens = "056789"
-- 
2.43.0


From 7750218c335b2b58c4cfae074b4f72ae9f96cc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:39 +0000
Subject: [PATCH 03/36] fix: parallel module parser no longer skips the token
 at each chunk boundary

---
 a2l/module.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a2l/module.go b/a2l/module.go
index 06f00e1..0c5ee45 100644
--- a/a2l/module.go
+++ b/a2l/module.go
@@ -420,7 +420,7 @@ forLoop:
 	for i := 0; i < numProc; i++ {
 		//Starte parser Threads
 		minIndex := startIndex + ((endIndex-startIndex)/numProc)*i
-		maxIndex := minIndex + ((endIndex - startIndex) / numProc) - 1
+		maxIndex := minIndex + ((endIndex - startIndex) / numProc)
 		if i+1 == numProc {
 			maxIndex = endIndex
 		}
-- 
2.43.0


From 819af8cb173f00f9575071fd3f0fa82b2f18c27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:49 +0000
Subject: [PATCH 04/36] fix: MATRIX_DIM marks every dimension it has read

---
 a2l/matrix_dim.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/a2l/matrix_dim.go b/a2l/matrix_dim.go
index 47af7a8..17fc1c6 100644
--- a/a2l/matrix_dim.go
+++ b/a2l/matrix_dim.go
@@ -61,6 +61,7 @@ forLoop:
 				break forLoop
 			}
 			md.DimY = uint16(buf)
+			md.DimYSet = true
 			log.Info().Msg("matrixDim yDim successfully parsed")
 		} else if !md.DimZSet {
 			var buf uint64
@@ -70,6 +71,7 @@ forLoop:
 				break forLoop
 			}
 			md.DimZ = uint16(buf)
+			md.DimZSet = true
 			log.Info().Msg("matrixDim zDim successfully parsed")
 		} else if !md.Dim4Set {
 			var buf uint64
@@ -79,6 +81,7 @@ forLoop:
 				break forLoop
 			}
 			md.Dim4 = uint16(buf)
+			md.Dim4Set = true
 			log.Info().Msg("matrixDim 4Dim successfully parsed")
 		} else if !md.Dim5Set {
 			var buf uint64
@@ -88,6 +91,7 @@ forLoop:
 				break forLoop
 			}
 			md.Dim5 = uint16(buf)
+			md.Dim5Set = true
 			log.Info().Msg("matrixDim 5Dim successfully parsed")
 			break forLoop
 		}
-- 
2.43.0


From f05a669fb132e4b21a022620e958e5c45ae1871c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:19 +0000
Subject: [PATCH 05/36] fix: MATRIX_DIM ends at READ_ONLY and READ_WRITE like
 at any other keyword

---
 a2l/matrix_dim.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a2l/matrix_dim.go b/a2l/matrix_dim.go
index 17fc1c6..6586f1d 100644
--- a/a2l/matrix_dim.go
+++ b/a2l/matrix_dim.go
@@ -37,7 +37,7 @@ forLoop:
 			err = errors.New("unexpected end of file")
 			log.Err(err).Msg("matrixDim could not be parsed")
 			break forLoop
-		} else if isKeyword(tok.current()) {
+		} else if isKeyword(tok.current()) || tok.current() == readOnlyToken || tok.current() == readWriteToken {
 			//see above comment
 			log.Info().Str("current token", tok.current()).Msg("matrixDim detected keyword:")
 			tok.previous()
-- 
2.43.0


From 7af18299f5df4c7d0c9e62ec0c359974db3c3a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:38 +0000
Subject: [PATCH 06/36] fix: ENCODING reads the word that follows the keyword

---
 a2l/enums.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a2l/enums.go b/a2l/enums.go
index bff99f0..3a5e095 100644
--- a/a2l/enums.go
+++ b/a2l/enums.go
@@ -20,7 +20,7 @@ const (
 func parseEncodingEnum(tok *tokenGenerator) (encodingEnum, error) {
 	e := undefinedEncoding
 	var err error
-	switch tok.current() {
+	switch tok.next() {
 	case "UTF8":
 		e = UTF8
 	case "UTF16":
-- 
2.43.0


From 0bf781af7914bde27907a161840a8fea9ed32bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:38 +0000
Subject: [PATCH 07/36] fix: address type PLONGLONG is accepted

---
 a2l/enums.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/a2l/enums.go b/a2l/enums.go
index 3a5e095..50d3a29 100644
--- a/a2l/enums.go
+++ b/a2l/enums.go
@@ -262,6 +262,8 @@ func parseAddrTypeEnum(tok *tokenGenerator) (AddrTypeEnum, error) {
 		a = PWORD
 	case plongToken:
 		a = PLONG
+	case plonLongToken:
+		a = PLONGLONG
 	case directToken:
 		a = DIRECT
 	default:
-- 
2.43.0


From bd65701e7e268c9d6048d4fb5b34135db8d69173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:38 +0000
Subject: [PATCH 08/36] fix: ADDRESS_TYPE reads the word that follows the
 keyword

---
 a2l/blob.go                | 1 +
 a2l/instance.go            | 1 +
 a2l/structure_component.go | 1 +
 a2l/type_def_blob.go       | 1 +
 a2l/type_def_structure.go  | 1 +
 5 files changed, 5 insertions(+)

diff --git a/a2l/blob.go b/a2l/blob.go
index 13c4a97..5c53d57 100644
--- a/a2l/blob.go
+++ b/a2l/blob.go
@@ -46,6 +46,7 @@ forLoop:
 			b.annotation = append(b.annotation, buf)
 			log.Info().Msg("blob annotation successfully parsed")
 		case addressTypeToken:
+			tok.next()
 			b.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("blob addressType could not be parsed")
diff --git a/a2l/instance.go b/a2l/instance.go
index fd7529b..d5f8c08 100644
--- a/a2l/instance.go
+++ b/a2l/instance.go
@@ -45,6 +45,7 @@ forLoop:
 			i.annotation = append(i.annotation, buf)
 			log.Info().Msg("instance annotation successfully parsed")
 		case addressTypeToken:
+			tok.next()
 			i.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("instance addressType could not be parsed")
diff --git a/a2l/structure_component.go b/a2l/structure_component.go
index 19884c9..777af78 100644
--- a/a2l/structure_component.go
+++ b/a2l/structure_component.go
@@ -26,6 +26,7 @@ forLoop:
 	for {
 		switch tok.next() {
 		case addressTypeToken:
+			tok.next()
 			sc.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("structureComponent addressType could not be parsed")
diff --git a/a2l/type_def_blob.go b/a2l/type_def_blob.go
index bcdaa5d..2440b49 100644
--- a/a2l/type_def_blob.go
+++ b/a2l/type_def_blob.go
@@ -24,6 +24,7 @@ forLoop:
 	for {
 		switch tok.next() {
 		case addressTypeToken:
+			tok.next()
 			tdb.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("typeDefBlob addressType could not be parsed")
diff --git a/a2l/type_def_structure.go b/a2l/type_def_structure.go
index 5c5942d..15faef4 100644
--- a/a2l/type_def_structure.go
+++ b/a2l/type_def_structure.go
@@ -27,6 +27,7 @@ forLoop:
 	for {
 		switch tok.next() {
 		case addressTypeToken:
+			tok.next()
 			tds.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("typeDefStructure addressType could not be parsed")
-- 
2.43.0


From 40d1c1772cc4f88ac48bd867155324211ee2a338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:38 +0000
Subject: [PATCH 09/36] fix: FIX_AXIS_PAR is listed as a keyword

---
 a2l/tokens.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/a2l/tokens.go b/a2l/tokens.go
index 35dac5a..ac53e6e 100644
--- a/a2l/tokens.go
+++ b/a2l/tokens.go
@@ -543,6 +543,7 @@ var keywordMap = map[string]uint8{
 	"EPK":                             0,
 	"ERROR_MASK":                      0,
 	"EXTENDED_LIMITS":                 0,
+	"FIX_AXIS_PAR":                    0,
 	"FIX_AXIS_PAR_DIST":               0,
 	"FIX_NO_AXIS_PTS_4":               0,
 	"FIX_NO_AXIS_PTS_5":               0,
-- 
2.43.0


From 934c22dfe13e74688e0f08c4b030f80f518ba344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:16 +0000
Subject: [PATCH 10/36] fix: TYPEDEF_CHARACTERISTIC reads its encoding from
 ENCODING

---
 a2l/type_def_characteristic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a2l/type_def_characteristic.go b/a2l/type_def_characteristic.go
index e1f7cf6..4525f55 100644
--- a/a2l/type_def_characteristic.go
+++ b/a2l/type_def_characteristic.go
@@ -73,7 +73,7 @@ forLoop:
 				break forLoop
 			}
 			log.Info().Msg("typeDefCharacteristic discrete successfully parsed")
-		case displayIdentifierToken:
+		case encodingToken:
 			tdc.encoding, err = parseEncodingEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("typeDefCharacteristic encoding could not be parsed")
-- 
2.43.0


From c0c76b45e07c62fdd3c010d3f94e491bfdb79f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:16 +0000
Subject: [PATCH 11/36] fix: MEMORY_SEGMENT stores its five offsets instead of
 the first one five times

---
 a2l/memory_segment.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/a2l/memory_segment.go b/a2l/memory_segment.go
index 69e6b1c..16b24cf 100644
--- a/a2l/memory_segment.go
+++ b/a2l/memory_segment.go
@@ -91,10 +91,14 @@ forLoop:
 				ms.size = tok.current()
 				ms.sizeSet = true
 			} else if !ms.offsetSet {
+				//each token is one offset, offsets that have not been parsed yet are still empty
 				for i := 0; i < 5; i++ {
-					ms.offset[i] = tok.current()
+					if ms.offset[i] == emptyToken {
+						ms.offset[i] = tok.current()
+						ms.offsetSet = i == 4
+						break
+					}
 				}
-				ms.offsetSet = true
 			}
 		}
 	}
-- 
2.43.0


From aaa0add0aadb149101309f05862c7fb466df8d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:16 +0000
Subject: [PATCH 12/36] fix: GetObjectByIdent returns nothing when the selected
 module does not exist

---
 record_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/record_manager.go b/record_manager.go
index 9385892..5270099 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -47,6 +47,9 @@ func (cd *CalibrationData) GetObjectByIdent(ident string) []interface{} {
 	var buf interface{}
 	var exists bool
 
+	if int(cd.ModuleIndex) >= len(cd.A2l.Project.Modules) {
+		return calibrationObjects
+	}
 	m := cd.A2l.Project.Modules[cd.ModuleIndex]
 
 	buf, exists = m.AxisPts[ident]
-- 
2.43.0


From 067bdc4462c43ddeec3d20652e0f9938982c9f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:17 +0000
Subject: [PATCH 13/36] fix: value of a system constant is returned instead of
 an empty string

---
 record_manager.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/record_manager.go b/record_manager.go
index 5270099..3641d14 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -31,13 +31,12 @@ func (cd *CalibrationData) getSystemConstantValue(ident string) (string, error)
 		log.Err(err).Msg("could not get value of system constant")
 		return "", err
 	}
-	var val string
 	if !sc.ValueSet {
 		err = errors.New("no value defined in system constant " + sc.Name)
 		log.Err(err).Msg("could not get value of system constant")
 		return "", err
 	}
-	return val, nil
+	return sc.Value, nil
 }
 
 // GetObjectByIdent returns an object with a given identifier that is defined within the a2l
-- 
2.43.0


From 5100fc3ba58f47b6ff7a606e963ab23a111b6a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:34 +0000
Subject: [PATCH 14/36] fix: tokenizer failures fail the parse instead of
 dropping the remaining tokens

---
 a2l/token_generator.go | 53 +++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/a2l/token_generator.go b/a2l/token_generator.go
index 220c0ce..d8eb115 100755
--- a/a2l/token_generator.go
+++ b/a2l/token_generator.go
@@ -14,6 +14,9 @@ const expectedNumberOfTokens = 3000000
 var tokenList []string
 var moduleCount uint32
 
+// errEOF signals that all tokens of a text have been read
+var errEOF = errors.New("reached eof")
+
 type tokenGenerator struct {
 	index int
 }
@@ -49,6 +52,8 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 
 	//Split text file into lines and the lines into words separated by whitespace
 	var locTokens []chan []string
+	//each go routine sends at most one error
+	locErrors := make(chan error, numProc)
 	tokenList = make([]string, 0, expectedNumberOfTokens)
 	lines := strings.Split(str, "\n")
 	for i := 0; i < numProc; i++ {
@@ -61,7 +66,7 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 		}
 		c := make(chan []string, 1)
 		locTokens = append(locTokens, c)
-		go tokenBuilderRoutine(lines[start:end], c)
+		go tokenBuilderRoutine(lines[start:end], c, locErrors)
 	}
 	//collect token lists from channels
 	for _, c := range locTokens {
@@ -69,6 +74,11 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 			tokenList = append(tokenList, t...)
 		}
 	}
+	//all go routines have closed their channels by now, so no more errors can be sent
+	close(locErrors)
+	for err := range locErrors {
+		return tokenGenerator{}, err
+	}
 	tokenList = append(tokenList, emptyToken)
 	tg := tokenGenerator{}
 	tg.index = 0
@@ -85,7 +95,7 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 	return tg, nil
 }
 
-func tokenBuilderRoutine(lines []string, c chan []string) {
+func tokenBuilderRoutine(lines []string, c chan []string, ce chan error) {
 	//initialize fields with the expected capacity of tokens it will have to hold in order to avoid reallocations
 	fields := make([][]string, 0, expectedNumberOfTokens/numProc)
 	for _, l := range lines {
@@ -93,11 +103,16 @@ func tokenBuilderRoutine(lines []string, c chan []string) {
 			fields = append(fields, strings.Fields(l))
 		}
 	}
-	c <- buildTokenList(fields)
+	tl, err := buildTokenList(fields)
+	if err != nil {
+		log.Err(err).Msg("could not build tokens")
+		ce <- err
+	}
+	c <- tl
 	close(c)
 }
 
-func buildTokenList(str [][]string) []string {
+func buildTokenList(str [][]string) ([]string, error) {
 	var err error
 	tl := make([]string, 0, expectedNumberOfTokens/numProc)
 	currentOuterIndex := 0
@@ -108,8 +123,10 @@ func buildTokenList(str [][]string) []string {
 	for {
 		t, err = buildNextValidToken(&currentOuterIndex, &currentInnerIndex, str, firstRun)
 		firstRun = false
-		if err != nil {
-			return tl
+		if err == errEOF {
+			return tl, nil
+		} else if err != nil {
+			return tl, err
 		}
 		if t != emptyToken {
 			if strings.Contains(t, "*/") && !strings.Contains(t, "*/") {
@@ -128,7 +145,7 @@ func buildTokenList(str [][]string) []string {
 				tl = append(tl, t)
 			}
 		} else {
-			return tl
+			return tl, nil
 		}
 	}
 }
@@ -151,13 +168,13 @@ func buildNextValidToken(currentOuterIndex *int, currentInnerIndex *int, str [][
 				return emptyToken, err
 			}
 		} else {
-			err = errors.New("index out of bounds with outer index " + strconv.Itoa((*currentOuterIndex)) + " of " + strconv.Itoa(len(str)))
-			return emptyToken, err
+			//there are no tokens at all
+			return emptyToken, errEOF
 		}
 	}
 start:
 	if t == emptyToken {
-		return emptyToken, errors.New("reached eof")
+		return emptyToken, errEOF
 	} else if strings.Contains(t, quotationMarkToken) {
 		qtp := strings.Index(t, quotationMarkToken)
 		lcp := strings.Index(t, beginLineCommentToken)
@@ -218,7 +235,7 @@ func skipLineComment(currentOuterIndex *int, currentInnerIndex *int, str [][]str
 			*currentInnerIndex = 0
 			return str[*currentOuterIndex][*currentInnerIndex], nil
 		} else {
-			return emptyToken, errors.New("reached eof")
+			return emptyToken, errEOF
 		}
 
 	} else {
@@ -244,7 +261,7 @@ func skipMultilineComment(currentOuterIndex *int, currentInnerIndex *int, str []
 				return t, err
 			} else if t == emptyToken {
 				log.Err(err).Msg("exit multi line comment due to EOF")
-				err = errors.New("reached eof")
+				err = errEOF
 				return emptyToken, err
 			}
 
@@ -253,7 +270,7 @@ func skipMultilineComment(currentOuterIndex *int, currentInnerIndex *int, str []
 		t, err = moveToNextRawValue(currentOuterIndex, currentInnerIndex, str)
 		return t, err
 	} else {
-		err = errors.New("reached eof")
+		err = errEOF
 		return emptyToken, err
 	}
 }
@@ -271,7 +288,9 @@ func getTextInQuotationMarks(currentOuterIndex *int, currentInnerIndex *int, str
 		textInQuotationMarks := t
 		for {
 			t, err = moveToNextRawValue(currentOuterIndex, currentInnerIndex, str)
-			if err != nil {
+			if err == errEOF {
+				return emptyToken, errors.New("unexpected end of text in quotation marks")
+			} else if err != nil {
 				return emptyToken, err
 			}
 			textInQuotationMarks = textInQuotationMarks + spaceToken + t
@@ -303,7 +322,7 @@ func moveToNextRawValue(currentOuterIndex *int, currentInnerIndex *int, str [][]
 		str[*currentOuterIndex] = append(str[*currentOuterIndex], emptyToken)
 		*currentInnerIndex++
 		//reached EOF
-		return emptyToken, errors.New("reached eof")
+		return emptyToken, errEOF
 	} else if len(str[*currentOuterIndex])-1 == *currentInnerIndex && len(str)-1 > *currentOuterIndex {
 		//then go the next line and move to its first token
 		*currentOuterIndex++
@@ -336,7 +355,9 @@ func getTwoWordedToken(currentOuterIndex *int, currentInnerIndex *int, str [][]s
 	if strings.Contains(t, "/begin") || strings.Contains(t, "/end") {
 		twoWordedToken := t
 		t, err = moveToNextRawValue(currentOuterIndex, currentInnerIndex, str)
-		if err != nil {
+		if err == errEOF {
+			return emptyToken, errors.New("unexpected end of text after " + twoWordedToken)
+		} else if err != nil {
 			return emptyToken, err
 		}
 		twoWordedToken = twoWordedToken + spaceToken + t
-- 
2.43.0


From 1df1cb366f58eeb40fbfac391a50a2c6cc186535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:43 +0000
Subject: [PATCH 15/36] fix: addresses are aligned by adding the distance to
 the next border

---
 calib_data.go | 66 +++++++++++++++++++++++++--------------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/calib_data.go b/calib_data.go
index d061669..56e783e 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -201,7 +201,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentByte.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentByte.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentByte.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -210,14 +210,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(1)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(1) - modulo
 			} else {
 				return address
 			}
@@ -226,7 +226,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentByte.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentByte.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentByte.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -235,14 +235,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(1)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(1) - modulo
 			} else {
 				return address
 			}
@@ -251,7 +251,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentWord.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentWord.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentWord.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -260,14 +260,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(2)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(2) - modulo
 			} else {
 				return address
 			}
@@ -276,7 +276,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentWord.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentWord.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentWord.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -285,14 +285,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(2)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(2) - modulo
 			} else {
 				return address
 			}
@@ -301,7 +301,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentLong.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentLong.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentLong.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -310,14 +310,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(4)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(4) - modulo
 			} else {
 				return address
 			}
@@ -326,7 +326,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentLong.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentLong.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentLong.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -335,14 +335,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(4)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(4) - modulo
 			} else {
 				return address
 			}
@@ -351,7 +351,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentInt64.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentInt64.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentInt64.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -360,14 +360,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(8)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(8) - modulo
 			} else {
 				return address
 			}
@@ -376,7 +376,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentInt64.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentInt64.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentInt64.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -385,14 +385,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(8)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(8) - modulo
 			} else {
 				return address
 			}
@@ -401,7 +401,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentFloat16Ieee.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentFloat16Ieee.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentFloat16Ieee.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -410,14 +410,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(2)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(2) - modulo
 			} else {
 				return address
 			}
@@ -426,7 +426,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentFloat32Ieee.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentFloat32Ieee.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentFloat32Ieee.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -435,14 +435,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(4)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(4) - modulo
 			} else {
 				return address
 			}
@@ -451,7 +451,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if rl.AlignmentFloat64Ieee.AlignmentBorderSet {
 			modulo := address % uint32(rl.AlignmentFloat64Ieee.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(rl.AlignmentFloat64Ieee.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
@@ -460,14 +460,14 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 		if a.AlignmentBorderSet {
 			modulo := address % uint32(a.AlignmentBorder)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(a.AlignmentBorder) - modulo
 			} else {
 				return address
 			}
 		} else {
 			modulo := address % uint32(8)
 			if modulo != 0 {
-				return address + modulo
+				return address + uint32(8) - modulo
 			} else {
 				return address
 			}
-- 
2.43.0


From 12cd16366becdfe7ef4fc3d0359f3ddbe48d8e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:43 +0000
Subject: [PATCH 16/36] fix: getBytes allocates a slice it can append to
 instead of panicking

---
 calib_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calib_data.go b/calib_data.go
index 56e783e..41d435c 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -481,7 +481,7 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 // if the address cannot be found an error is returned
 func (cd *CalibrationData) getBytes(address uint32, length uint32) ([]byte, error) {
 	nBytes := length / 8
-	bytes := make([]byte, nBytes, 0)
+	bytes := make([]byte, 0, nBytes)
 	if length%8 != 0 {
 		err := errors.New("unexpected number of bits " + strconv.Itoa(int(length)) + ". Expected a multiple of 8.")
 		log.Error().Err(err).Msg("invalid length")
-- 
2.43.0


From 9db1b1472d47ab834dd32af8b2f1b0a1d366c1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:45 +0000
Subject: [PATCH 17/36] fix: words are 16 and longs 32 bits wide in lengths,
 types and decoding

---
 a2l/enums.go      | 12 ++++++------
 record_manager.go | 16 ++++++++--------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/a2l/enums.go b/a2l/enums.go
index 50d3a29..8c2daba 100644
--- a/a2l/enums.go
+++ b/a2l/enums.go
@@ -104,10 +104,10 @@ func (dte *DataTypeEnum) GetType() interface{} {
 		var t int8
 		return t
 	case UWORD:
-		var t uint32
+		var t uint16
 		return t
 	case SWORD:
-		var t int32
+		var t int16
 		return t
 	case ULONG:
 		var t uint32
@@ -142,9 +142,9 @@ func (dte *DataTypeEnum) GetDatatypeLength() uint16 {
 	case SBYTE:
 		return 8
 	case UWORD:
-		return 32
+		return 16
 	case SWORD:
-		return 32
+		return 16
 	case ULONG:
 		return 32
 	case SLONG:
@@ -211,9 +211,9 @@ func (dse *DataSizeEnum) GetDataSizeLength() uint16 {
 	case BYTE:
 		return 8
 	case WORD:
-		return 32
+		return 16
 	case LONG:
-		return 64
+		return 32
 	default:
 		return 0
 	}
diff --git a/record_manager.go b/record_manager.go
index 3641d14..a430e59 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -159,16 +159,16 @@ func (cd *CalibrationData) convertByteSliceToDatatype(byteSlice []byte, dte a2l.
 		case a2l.SBYTE:
 			return float64(int8(byteSlice[0])), nil
 		case a2l.UWORD:
-			val := binary.BigEndian.Uint32(byteSlice)
+			val := binary.BigEndian.Uint16(byteSlice)
 			return float64(val), nil
 		case a2l.SWORD:
-			val := int32(binary.BigEndian.Uint32(byteSlice))
+			val := int16(binary.BigEndian.Uint16(byteSlice))
 			return float64(val), nil
 		case a2l.ULONG:
-			val := binary.BigEndian.Uint64(byteSlice)
+			val := binary.BigEndian.Uint32(byteSlice)
 			return float64(val), nil
 		case a2l.SLONG:
-			val := int64(binary.BigEndian.Uint64(byteSlice))
+			val := int32(binary.BigEndian.Uint32(byteSlice))
 			return float64(val), nil
 		case a2l.AUint64:
 			val := binary.BigEndian.Uint64(byteSlice)
@@ -197,16 +197,16 @@ func (cd *CalibrationData) convertByteSliceToDatatype(byteSlice []byte, dte a2l.
 		case a2l.SBYTE:
 			return float64(int8(byteSlice[0])), nil
 		case a2l.UWORD:
-			val := binary.LittleEndian.Uint32(byteSlice)
+			val := binary.LittleEndian.Uint16(byteSlice)
 			return float64(val), nil
 		case a2l.SWORD:
-			val := int32(binary.LittleEndian.Uint32(byteSlice))
+			val := int16(binary.LittleEndian.Uint16(byteSlice))
 			return float64(val), nil
 		case a2l.ULONG:
-			val := binary.LittleEndian.Uint64(byteSlice)
+			val := binary.LittleEndian.Uint32(byteSlice)
 			return float64(val), nil
 		case a2l.SLONG:
-			val := int64(binary.LittleEndian.Uint64(byteSlice))
+			val := int32(binary.LittleEndian.Uint32(byteSlice))
 			return float64(val), nil
 		case a2l.AUint64:
 			val := binary.LittleEndian.Uint64(byteSlice)
-- 
2.43.0


From 8654549f1ccc18c941c22b59abe5d949554ffa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:45 +0000
Subject: [PATCH 18/36] fix: half precision values are decoded to their value
 instead of their bit pattern

---
 record_manager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/record_manager.go b/record_manager.go
index a430e59..97a0144 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -178,7 +178,7 @@ func (cd *CalibrationData) convertByteSliceToDatatype(byteSlice []byte, dte a2l.
 			return float64(val), nil
 		case a2l.Float16Ieee:
 			val := float16.Frombits(binary.BigEndian.Uint16(byteSlice))
-			return float64(val), nil
+			return float64(val.Float32()), nil
 		case a2l.Float32Ieee:
 			val := math.Float32frombits(binary.BigEndian.Uint32(byteSlice))
 			return float64(val), nil
@@ -216,7 +216,7 @@ func (cd *CalibrationData) convertByteSliceToDatatype(byteSlice []byte, dte a2l.
 			return float64(val), nil
 		case a2l.Float16Ieee:
 			val := float16.Frombits(binary.LittleEndian.Uint16(byteSlice))
-			return float64(val), nil
+			return float64(val.Float32()), nil
 		case a2l.Float32Ieee:
 			val := math.Float32frombits(binary.LittleEndian.Uint32(byteSlice))
 			return float64(val), nil
-- 
2.43.0


From 0c575bd46478cb746d791b208c5ad4aab98c668e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:54 +0000
Subject: [PATCH 19/36] fix: the read position advances in bytes from the
 aligned address

---
 axis_pts.go       | 10 +++++-----
 calib_data.go     |  3 ++-
 distOp.go         | 10 +++++-----
 fnc_values.go     |  4 ++--
 identification.go |  2 +-
 no_axis_pts.go    | 10 +++++-----
 no_rescale_x.go   |  2 +-
 offsetOp.go       | 10 +++++-----
 reserved.go       |  2 +-
 shiftOp.go        | 10 +++++-----
 10 files changed, 32 insertions(+), 31 deletions(-)

diff --git a/axis_pts.go b/axis_pts.go
index e5a19b9..ecc7db7 100644
--- a/axis_pts.go
+++ b/axis_pts.go
@@ -45,7 +45,7 @@ func (cv *CharacteristicValues) getAxisPointsX(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPtsX.Datatype.GetDatatypeLength())
+		*curPos += uint32(rl.AxisPtsX.Datatype.GetDatatypeLength()) / 8
 	}
 	return val, err
 }
@@ -84,7 +84,7 @@ func (cv *CharacteristicValues) getAxisPointsY(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPtsY.Datatype.GetDatatypeLength())
+		*curPos += uint32(rl.AxisPtsY.Datatype.GetDatatypeLength()) / 8
 	}
 	return val, err
 }
@@ -123,7 +123,7 @@ func (cv *CharacteristicValues) getAxisPointsZ(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPtsZ.Datatype.GetDatatypeLength())
+		*curPos += uint32(rl.AxisPtsZ.Datatype.GetDatatypeLength()) / 8
 	}
 	return val, err
 }
@@ -162,7 +162,7 @@ func (cv *CharacteristicValues) getAxisPoints4(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPts4.Datatype.GetDatatypeLength())
+		*curPos += uint32(rl.AxisPts4.Datatype.GetDatatypeLength()) / 8
 	}
 	return val, err
 }
@@ -201,7 +201,7 @@ func (cv *CharacteristicValues) getAxisPoints5(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPts5.Datatype.GetDatatypeLength())
+		*curPos += uint32(rl.AxisPts5.Datatype.GetDatatypeLength()) / 8
 	}
 	return val, err
 }
diff --git a/calib_data.go b/calib_data.go
index 41d435c..5da5154 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -707,7 +707,8 @@ func getValuesFromHex(cv *CharacteristicValues, cd *CalibrationData) {
 }
 
 func (cd *CalibrationData) getValue(curPos *uint32, dte a2l.DataTypeEnum, rl *a2l.RecordLayout) ([]byte, error) {
-	bytes, err := cd.getBytes(cd.getNextAlignedAddress(*curPos, dte, rl), uint32(dte.GetDatatypeLength()))
+	*curPos = cd.getNextAlignedAddress(*curPos, dte, rl)
+	bytes, err := cd.getBytes(*curPos, uint32(dte.GetDatatypeLength()))
 	if err != nil {
 		log.Err(err).Msg("could not retrieve value as byteSlice")
 		return nil, err
diff --git a/distOp.go b/distOp.go
index b71553a..48443fc 100644
--- a/distOp.go
+++ b/distOp.go
@@ -24,7 +24,7 @@ func (cd *CalibrationData) getDistOpX(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOpX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOpX.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.DistOpX.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -45,7 +45,7 @@ func (cd *CalibrationData) getDistOpY(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOpY value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOpY.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.DistOpY.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -66,7 +66,7 @@ func (cd *CalibrationData) getDistOpZ(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOpZ value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOpZ.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.DistOpZ.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -87,7 +87,7 @@ func (cd *CalibrationData) getDistOp4(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOp4 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOp4.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.DistOp4.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -108,6 +108,6 @@ func (cd *CalibrationData) getDistOp5(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOp5 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOp5.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.DistOp5.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
diff --git a/fnc_values.go b/fnc_values.go
index dad7048..5c99d00 100644
--- a/fnc_values.go
+++ b/fnc_values.go
@@ -23,7 +23,7 @@ func (cv *CharacteristicValues) getFncValues1D(cd *CalibrationData, rl *a2l.Reco
 		log.Err(err).Msg("could not retrieve FncValues values")
 		return 0.0, bufByte, err
 	}
-	*curPos += uint32(rl.FncValues.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.FncValues.Datatype.GetDatatypeLength()) / 8
 	return bufFloat, bufByte, err
 }
 
@@ -61,7 +61,7 @@ func (cv *CharacteristicValues) getFncValues2D(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPtsX.Datatype.GetDatatypeLength())
+		*curPos += uint32(rl.AxisPtsX.Datatype.GetDatatypeLength()) / 8
 	}
 	return val, err
 }
diff --git a/identification.go b/identification.go
index 5e90e66..143aa0f 100644
--- a/identification.go
+++ b/identification.go
@@ -20,6 +20,6 @@ func (cd *CalibrationData) getIdentification(rl *a2l.RecordLayout, curPos *uint3
 		log.Err(err).Msg("could not retrieve identification value")
 		return nil, err
 	}
-	*curPos += uint32(rl.Identification.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.Identification.Datatype.GetDatatypeLength()) / 8
 	return val, err
 }
diff --git a/no_axis_pts.go b/no_axis_pts.go
index 766b01f..a225c7e 100644
--- a/no_axis_pts.go
+++ b/no_axis_pts.go
@@ -24,7 +24,7 @@ func (cd *CalibrationData) getNoAxisPtsX(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPtsX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPtsX.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.NoAxisPtsX.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -45,7 +45,7 @@ func (cd *CalibrationData) getNoAxisPtsY(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPtsY value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPtsY.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.NoAxisPtsY.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -66,7 +66,7 @@ func (cd *CalibrationData) getNoAxisPtsZ(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPtsZ value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPtsZ.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.NoAxisPtsZ.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -87,7 +87,7 @@ func (cd *CalibrationData) getNoAxisPts4(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPts4 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPts4.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.NoAxisPts4.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -108,6 +108,6 @@ func (cd *CalibrationData) getNoAxisPts5(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPts5 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPts5.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.NoAxisPts5.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
diff --git a/no_rescale_x.go b/no_rescale_x.go
index a90ae17..8a1138f 100644
--- a/no_rescale_x.go
+++ b/no_rescale_x.go
@@ -24,6 +24,6 @@ func (cd *CalibrationData) getNoRescaleX(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noRescaleX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoRescaleX.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.NoRescaleX.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
diff --git a/offsetOp.go b/offsetOp.go
index f5a194d..22e531f 100644
--- a/offsetOp.go
+++ b/offsetOp.go
@@ -24,7 +24,7 @@ func (cd *CalibrationData) getOffsetX(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offsetX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.OffsetX.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.OffsetX.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -45,7 +45,7 @@ func (cd *CalibrationData) getOffsetY(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offsetY value")
 		return 0, err
 	}
-	*curPos += uint32(rl.OffsetY.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.OffsetY.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -66,7 +66,7 @@ func (cd *CalibrationData) getOffsetZ(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offsetZ value")
 		return 0, err
 	}
-	*curPos += uint32(rl.OffsetZ.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.OffsetZ.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -87,7 +87,7 @@ func (cd *CalibrationData) getOffset4(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offset4 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.Offset4.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.Offset4.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -108,6 +108,6 @@ func (cd *CalibrationData) getOffset5(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offset5 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.Offset5.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.Offset5.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
diff --git a/reserved.go b/reserved.go
index 6602641..e9a5889 100644
--- a/reserved.go
+++ b/reserved.go
@@ -16,6 +16,6 @@ func (cd *CalibrationData) getReserved(rl *a2l.RecordLayout, curPos *uint32) err
 		return err
 	}
 	//Value of reserved is not relevant. Only its datasize and the resulting offset for other datastructres are necessary
-	*curPos += uint32(rl.Reserved.DataSize.GetDataSizeLength())
+	*curPos += uint32(rl.Reserved.DataSize.GetDataSizeLength()) / 8
 	return nil
 }
diff --git a/shiftOp.go b/shiftOp.go
index 256ee1b..49b7950 100644
--- a/shiftOp.go
+++ b/shiftOp.go
@@ -24,7 +24,7 @@ func (cd *CalibrationData) getShiftOpX(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOpX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOpX.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.ShiftOpX.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -45,7 +45,7 @@ func (cd *CalibrationData) getShiftOpY(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOpY value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOpY.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.ShiftOpY.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -66,7 +66,7 @@ func (cd *CalibrationData) getShiftOpZ(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOpZ value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOpZ.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.ShiftOpZ.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -87,7 +87,7 @@ func (cd *CalibrationData) getShiftOp4(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOp4 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOp4.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.ShiftOp4.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -108,6 +108,6 @@ func (cd *CalibrationData) getShiftOp5(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOp5 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOp5.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.ShiftOp5.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
-- 
2.43.0


From f870429f1056ace738c098116903e030110427a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:13 +0000
Subject: [PATCH 20/36] fix: verbal range conversion compares the upper bound
 with InValMax

---
 compu_methods.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compu_methods.go b/compu_methods.go
index eebbb44..0bd9e05 100644
--- a/compu_methods.go
+++ b/compu_methods.go
@@ -68,7 +68,7 @@ func calcTabVerbRange(dec float64, cvr *a2l.CompuVTabRange, cd *CalibrationData)
 	if tabRange.NumberValueTriplesSet {
 		var i uint16
 		for i = 0; i < tabRange.NumberValueTriples; i++ {
-			if tabRange.InValMin[i] <= dec && dec < tabRange.InValMin[i] {
+			if tabRange.InValMin[i] <= dec && dec < tabRange.InValMax[i] {
 				return tabRange.OutVal[i], err
 			}
 		}
-- 
2.43.0


From 91dedead2e818379c01dc5012d21b484964c60a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:13 +0000
Subject: [PATCH 21/36] fix: conversions report a missing table and the
 unimplemented TAB_INTP rule as errors

---
 compu_methods.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/compu_methods.go b/compu_methods.go
index 0bd9e05..d6d1df4 100644
--- a/compu_methods.go
+++ b/compu_methods.go
@@ -38,6 +38,8 @@ func convDecToPhy(dec float64, cm *a2l.CompuMethod, cd *CalibrationData) (float6
 		}
 		return phy, err
 	case a2l.TabIntp:
+		err = errors.New("conversion method 'TabIntp' not implemented for compuMethod " + cm.Name)
+		log.Err(err).Msg("decimal value could not be converted")
 		return 0, err
 	case a2l.TabNointp:
 		phy, err := calcTabNoIntp(dec, cm, cd)
@@ -165,11 +167,9 @@ func calcTabNoIntp(dec float64, cm *a2l.CompuMethod, cd *CalibrationData) (float
 	var err error
 	tab, exists := cd.A2l.Project.Modules[cd.ModuleIndex].CompuTabs[cm.CompuTabRef.ConversionTable]
 	if !exists {
-		if err != nil {
-			err = errors.New("conversion table " + cm.CompuTabRef.ConversionTable + " not found for compuMethod: " + cm.Name)
-			log.Err(err).Msg("decimal value could not be converted")
-			return dec, err
-		}
+		err = errors.New("conversion table " + cm.CompuTabRef.ConversionTable + " not found for compuMethod: " + cm.Name)
+		log.Err(err).Msg("decimal value could not be converted")
+		return dec, err
 	}
 	if tab.InValSet && tab.OutValSet {
 		for i := range tab.InVal {
-- 
2.43.0


From b75e3c565db7041c9c43a7947458943f8f51f616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:34 +0000
Subject: [PATCH 22/36] fix: components of a characteristic are read in the
 order of their positions

---
 calib_data.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/calib_data.go b/calib_data.go
index 5da5154..e403371 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -12,6 +12,7 @@ import (
 	"errors"
 	"fmt"
 	"os"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -504,12 +505,14 @@ func getValuesFromHex(cv *CharacteristicValues, cd *CalibrationData) {
 	rl, err := cd.getRecordLayout(cv.characteristic)
 	if err != nil {
 		log.Err(err).Msg("record layout for identifier '" + cv.characteristic.Deposit + "' not found")
+		return
 	}
 
 	//determine relative positions of each field of the record layout struct
 	relPos, err := rl.GetRecordLayoutRelativePositions()
 	if err != nil {
 		log.Err(err).Msg("could not retrieve positions for record layout '" + cv.characteristic.Deposit + "'")
+		return
 	}
 	rl.RelativePositions = relPos
 
@@ -520,9 +523,17 @@ func getValuesFromHex(cv *CharacteristicValues, cd *CalibrationData) {
 	curPos, err = cd.convertStringToUint32Address(cv.characteristic.Address)
 	if err != nil {
 		log.Err(err).Msg("could not convert address of characteristic '" + cv.characteristic.Name + "'")
+		return
 	}
 
-	for _, field := range cv.recordLayout.RelativePositions {
+	//the fields are laid out one after another in the order of their positions
+	positions := make([]int, 0, len(rl.RelativePositions))
+	for pos := range rl.RelativePositions {
+		positions = append(positions, int(pos))
+	}
+	sort.Ints(positions)
+	for _, pos := range positions {
+		field := rl.RelativePositions[uint16(pos)]
 		switch field {
 		case "AxisPtsX":
 			cv.AxisXValues, err = cv.getAxisPointsX(cd, rl, &curPos)
-- 
2.43.0


From b66f26f69fb4898e218b2dd999f35e3b8bda8775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:42 +0000
Subject: [PATCH 23/36] fix: addresses of characteristics are read as numbers
 independent of the byte order

---
 record_manager.go | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/record_manager.go b/record_manager.go
index 97a0144..e6c96b7 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -113,24 +113,13 @@ func hexToByteSlice(hexVal string) ([]byte, error) {
 
 // convertStringToUint32Address is used to convert the adresses in string format in the characteristics to a uint32
 func (cd *CalibrationData) convertStringToUint32Address(str string) (uint32, error) {
-	var val uint32
-	byteSlice, err := hexToByteSlice(strings.ReplaceAll(str, "0x", ""))
+	//an address is a number in the a2l file, the byte order only applies to the values in memory
+	val, err := strconv.ParseUint(strings.TrimPrefix(strings.ToLower(str), "0x"), 16, 32)
 	if err != nil {
 		log.Err(err).Msg("string '" + str + "' could not be parsed")
-		return val, err
+		return 0, err
 	}
-	modCom := &cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon
-	if modCom.ByteOrder.ByteOrder == a2l.MsbFirstMswLast || modCom.ByteOrder.ByteOrder == a2l.MsbLastMswFirst {
-		err = errors.New("unexpected byte order")
-		log.Err(err).Msg("byte order " + modCom.ByteOrder.ByteOrder.String() + "not implemented")
-		return val, err
-	}
-	if !modCom.ByteOrder.ByteOrderSet || modCom.ByteOrder.ByteOrder == a2l.BigEndian || modCom.ByteOrder.ByteOrder == a2l.MsbFirst {
-		val = binary.BigEndian.Uint32(byteSlice)
-	} else {
-		val = binary.LittleEndian.Uint32(byteSlice)
-	}
-	return val, nil
+	return uint32(val), nil
 }
 
 // converts a byteSlice into a a2l.DatatypeEnum datatype.
-- 
2.43.0


From 369a2443fe99a42e4df9c9100ccc90d5c8d14b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:23 +0000
Subject: [PATCH 24/36] fix: measurement conversion ends at one word so limits
 are read

---
 a2l/measurement.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/a2l/measurement.go b/a2l/measurement.go
index 199dfbe..2c404e5 100644
--- a/a2l/measurement.go
+++ b/a2l/measurement.go
@@ -243,6 +243,8 @@ forLoop:
 				log.Info().Msg("measurement datatype successfully parsed")
 			} else if !m.conversionSet {
 				m.conversion = tok.current()
+				m.conversionSet = true
+				log.Info().Msg("measurement conversion successfully parsed")
 			} else if !m.resolutionSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 16)
-- 
2.43.0


From f65db443f9e18ed595b271e1b1cf3512adbc5f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:23 +0000
Subject: [PATCH 25/36] fix: typedef measurement conversion ends at one word so
 limits are read

---
 a2l/type_def_measurement.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/a2l/type_def_measurement.go b/a2l/type_def_measurement.go
index d644333..cfd11ad 100644
--- a/a2l/type_def_measurement.go
+++ b/a2l/type_def_measurement.go
@@ -135,6 +135,8 @@ forLoop:
 				log.Info().Msg("typeDefMeasurement datatype successfully parsed")
 			} else if !tdm.conversionSet {
 				tdm.conversion = tok.current()
+				tdm.conversionSet = true
+				log.Info().Msg("typeDefMeasurement conversion successfully parsed")
 			} else if !tdm.resolutionSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 16)
-- 
2.43.0


From feb66331a6ff49580bdbcc2bf980c6300c4fdcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:23 +0000
Subject: [PATCH 26/36] fix: frame positional parameters are recorded as read

---
 a2l/frame.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/a2l/frame.go b/a2l/frame.go
index b2620df..04bb314 100644
--- a/a2l/frame.go
+++ b/a2l/frame.go
@@ -51,8 +51,10 @@ forLoop:
 				break forLoop
 			} else if !f.nameSet {
 				f.name = tok.current()
+				f.nameSet = true
 			} else if !f.longIdentifierSet {
 				f.longIdentifier = tok.current()
+				f.longIdentifierSet = true
 			} else if !f.scalingUnitSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 16)
@@ -61,6 +63,7 @@ forLoop:
 					break forLoop
 				}
 				f.scalingUnit = uint16(buf)
+				f.scalingUnitSet = true
 			} else if !f.rateSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 32)
@@ -69,6 +72,7 @@ forLoop:
 					break forLoop
 				}
 				f.rate = uint32(buf)
+				f.rateSet = true
 			}
 		}
 	}
-- 
2.43.0


From 6274323aea7a1836c9a07009148f6fcf8849485d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:23 +0000
Subject: [PATCH 27/36] fix: unit long identifier is recorded as read

---
 a2l/unit.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a2l/unit.go b/a2l/unit.go
index 83e700c..cb11507 100644
--- a/a2l/unit.go
+++ b/a2l/unit.go
@@ -64,8 +64,8 @@ forLoop:
 				log.Info().Msg("unit name successfully parsed")
 			} else if !u.longIdentifierSet {
 				u.longIdentifier = tok.current()
-				u.nameSet = true
-				log.Info().Msg("unit name successfully parsed")
+				u.longIdentifierSet = true
+				log.Info().Msg("unit longIdentifier successfully parsed")
 			} else if !u.displaySet {
 				u.display = tok.current()
 				u.displaySet = true
-- 
2.43.0


From 0b020a821cfb8c073f5089e80ea02c8e68288fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:23 +0000
Subject: [PATCH 28/36] fix: no_rescale_x reads its datatype

---
 a2l/no_rescale_x.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a2l/no_rescale_x.go b/a2l/no_rescale_x.go
index abe4759..c115ea5 100644
--- a/a2l/no_rescale_x.go
+++ b/a2l/no_rescale_x.go
@@ -39,7 +39,6 @@ forLoop:
 			nrx.Position = uint16(buf)
 			nrx.PositionSet = true
 			log.Info().Msg("noRescalex position successfully parsed")
-			break forLoop
 		} else if !nrx.DatatypeSet {
 			nrx.Datatype, err = parseDataTypeEnum(tok)
 			if err != nil {
@@ -48,6 +47,7 @@ forLoop:
 			}
 			nrx.DatatypeSet = true
 			log.Info().Msg("noRescalex datatype successfully parsed")
+			break forLoop
 		}
 	}
 	return nrx, err
-- 
2.43.0


From 4cc3a517c62a6f279731d473bfaaa89f290f814f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:06 +0000
Subject: [PATCH 29/36] fix: stop parsing BIT_OPERATION at an unexpected
 keyword

The error was overwritten by the next LEFT_SHIFT, RIGHT_SHIFT or SIGN_EXTEND,
so the foreign keyword was silently accepted.
---
 a2l/bit_operation.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/a2l/bit_operation.go b/a2l/bit_operation.go
index ea65548..dfec724 100644
--- a/a2l/bit_operation.go
+++ b/a2l/bit_operation.go
@@ -56,6 +56,7 @@ forLoop:
 			} else if isKeyword(tok.current()) {
 				err = errors.New("unexpected token " + tok.current())
 				log.Err(err).Msg("bitOperation could not be parsed")
+				break forLoop
 			}
 		}
 	}
-- 
2.43.0


From 5942742a44b40c4fa91d8fc4a99e8dd25ae426c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:06 +0000
Subject: [PATCH 30/36] fix: report a FRAME that is not closed before the end
 of the file

---
 a2l/frame.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/a2l/frame.go b/a2l/frame.go
index 04bb314..f0a457a 100644
--- a/a2l/frame.go
+++ b/a2l/frame.go
@@ -42,6 +42,8 @@ forLoop:
 			log.Info().Msg("frame ifData successfully parsed")
 		default:
 			if tok.current() == emptyToken {
+				err = errors.New("unexpected end of file")
+				log.Err(err).Msg("frame could not be parsed")
 				break forLoop
 			} else if tok.current() == endFrameToken {
 				break forLoop
-- 
2.43.0


From 483b5dc0e4ee6781410aa1e106afbbdaf9ade9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:06 +0000
Subject: [PATCH 31/36] fix: OVERWRITE keeps the word after CONVERSION and
 INPUT_QUANTITY

The keyword itself was stored instead of the name that follows it.
---
 a2l/overwrite.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/a2l/overwrite.go b/a2l/overwrite.go
index 2ead1da..e396156 100644
--- a/a2l/overwrite.go
+++ b/a2l/overwrite.go
@@ -28,6 +28,11 @@ forLoop:
 	for {
 		switch tok.next() {
 		case conversionToken:
+			if tok.next() == emptyToken || isKeyword(tok.current()) {
+				err = errors.New("unexpected token " + tok.current())
+				log.Err(err).Msg("overwrite conversion could not be parsed")
+				break forLoop
+			}
 			o.conversion = tok.current()
 			log.Info().Msg("overwrite conversion successfully parsed")
 		case extendedLimitsToken:
@@ -45,6 +50,11 @@ forLoop:
 			}
 			log.Info().Msg("overwrite format successfully parsed")
 		case inputQuantityToken:
+			if tok.next() == emptyToken || isKeyword(tok.current()) {
+				err = errors.New("unexpected token " + tok.current())
+				log.Err(err).Msg("overwrite inputQuantity could not be parsed")
+				break forLoop
+			}
 			o.inputQuantity = tok.current()
 			log.Info().Msg("overwrite inputQuantity successfully parsed")
 		case limitsToken:
-- 
2.43.0


From e0b1870a8bac3672d654c5489299fad7b26014e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:55 +0000
Subject: [PATCH 32/36] fix: VAR_FORBIDDEN_COMB does not take a keyword as
 criterion value

An end marker or any other keyword after a criterion name was stored as its value.
---
 a2l/var_forbidden_comb.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/a2l/var_forbidden_comb.go b/a2l/var_forbidden_comb.go
index b1dcae9..725ea69 100644
--- a/a2l/var_forbidden_comb.go
+++ b/a2l/var_forbidden_comb.go
@@ -35,13 +35,16 @@ forLoop:
 			break forLoop
 		} else if !vfc.criterionNameSet || !vfc.criterionValueSet {
 			vfc.criterionName = append(vfc.criterionName, tok.current())
-			if tok.next() != emptyToken {
-				vfc.criterionValue = append(vfc.criterionValue, tok.current()) //token is upated in the if condition above
-			} else {
+			if tok.next() == emptyToken {
 				err = errors.New("unexpected end of file")
 				log.Err(err).Msg("varForbiddenComb could not be parsed")
 				break forLoop
+			} else if isKeyword(tok.current()) {
+				err = errors.New("unexpected token " + tok.current())
+				log.Err(err).Msg("varForbiddenComb could not be parsed")
+				break forLoop
 			}
+			vfc.criterionValue = append(vfc.criterionValue, tok.current()) //token is upated in the if condition above
 		}
 	}
 	return vfc, err
-- 
2.43.0


From ef4f295421cf9aec58e3b1c0b232dcc3c23f06d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:18 +0000
Subject: [PATCH 33/36] fix: accept ALTERNATE_CURVES, ALTERNATE_WITH_X and
 ALTERNATE_WITH_Y in FNC_VALUES

The index modes were listed as keywords, so FNC_VALUES rejected them as
unexpected tokens.
---
 a2l/tokens.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/a2l/tokens.go b/a2l/tokens.go
index ac53e6e..c679f2e 100644
--- a/a2l/tokens.go
+++ b/a2l/tokens.go
@@ -368,9 +368,6 @@ var keywordMap = map[string]uint8{
 	"ALIGNMENT_INT64":                 0,
 	"ALIGNMENT_LONG":                  0,
 	"ALIGNMENT_WORD":                  0,
-	"ALTERNATE_CURVES":                0,
-	"ALTERNATE_WITH_X":                0,
-	"ALTERNATE_WITH_Y":                0,
 	"ANNOTATION_LABEL":                0,
 	"ANNOTATION_ORIGIN":               0,
 	"AR_PROTOTYPE_OF":                 0,
-- 
2.43.0


From c6b5b69d8d81bfafa91552bfb211b5f7bc318009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:51 +0000
Subject: [PATCH 34/36] fix: move behind RIP_ADDR and SRC_ADDR fields when
 reading a record

---
 calib_data.go | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/calib_data.go b/calib_data.go
index e403371..b76374a 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -662,14 +662,8 @@ func getValuesFromHex(cv *CharacteristicValues, cd *CalibrationData) {
 		/*RIP_ADDR_X-Y-Z-4-5-W
 		are only used to store interpolation results,
 		so they are not read from hex as there is nothing to read
-		case "RipAddrW":
-		case "RipAddrX":
-		case "RipAddrY":
-		case "RipAddrZ":
-		case "RipAddr4":
-		case "RipAddr5":
-
-		/*SRC_ADDR_X-Y-Z-4-5
+
+		SRC_ADDR_X-Y-Z-4-5
 		define a input quantity meaning a measurement that determines which point of an axis is chosen for reading a value from a given characteristic.
 		e.g. given a curve where the x-Axis is the rpm of the engine and the values are
 		a defined relative engine load:
@@ -677,12 +671,15 @@ func getValuesFromHex(cv *CharacteristicValues, cd *CalibrationData) {
 		v	  12	  27	  38	  42	  49	  18
 		then  if the input quantity for this curve would be the measurement of the current rpm of the engine
 		depending on the rpm a value is chosen.
-		case "SrcAddrX":
-		case "SrcAddrY":
-		case "SrcAddrZ":
-		case "SrcAddr4":
-		case "SrcAddr5":
+
+		both still take up space in front of the fields that follow.
 		*/
+		case "RipAddrW", "RipAddrX", "RipAddrY", "RipAddrZ", "RipAddr4", "RipAddr5",
+			"SrcAddrX", "SrcAddrY", "SrcAddrZ", "SrcAddr4", "SrcAddr5":
+			err = cd.skipField(field, rl, &curPos)
+			if err != nil {
+				log.Err(err).Msg("could not skip " + field + " of characteristic '" + cv.characteristic.Name + "'")
+			}
 		case "ShiftOpX":
 			cv.shiftOpXValue, err = cd.getShiftOpX(rl, &curPos)
 			if err != nil {
@@ -727,6 +724,17 @@ func (cd *CalibrationData) getValue(curPos *uint32, dte a2l.DataTypeEnum, rl *a2
 	return bytes, nil
 }
 
+// skipField moves curPos behind a field whose value is not needed
+func (cd *CalibrationData) skipField(field string, rl *a2l.RecordLayout, curPos *uint32) error {
+	dte, err := rl.GetDatatypeByFieldName(field)
+	if err != nil {
+		log.Err(err).Msg("could not retrieve datatype")
+		return err
+	}
+	*curPos = cd.getNextAlignedAddress(*curPos, dte, rl) + uint32(dte.GetDatatypeLength())/8
+	return nil
+}
+
 func (cd *CalibrationData) getFncValues(rl *a2l.RecordLayout, curPos *uint32, cv *CharacteristicValues) (interface{}, error) {
 	//check access type. DIRECT is the most used. Just read value from a given address.
 	//in case other access types are set this gets more complicated as either offsets or pointers are leveraged to
-- 
2.43.0


From 1c1a40074a334be36847e3652d68787b0b4c5d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:16 +0000
Subject: [PATCH 35/36] fix: invert RAT_FUNC correctly, also where it is linear

---
 compu_methods.go | 49 ++++++++++++++++--------------------------------
 1 file changed, 16 insertions(+), 33 deletions(-)

diff --git a/compu_methods.go b/compu_methods.go
index d6d1df4..4b8b4c4 100644
--- a/compu_methods.go
+++ b/compu_methods.go
@@ -121,46 +121,29 @@ func calcTabVerb(dec float64, cv *a2l.CompuVTab, cd *CalibrationData) (string, e
 calcRatFunc computes the following formula: f(Physical) = Decimal
 y = (axx + bx + c) / (dxx + ex + f)
 inverted fi(Decimal) = Physical
-y = (e dec - b)/(2 (a - d dec)) ± sqrt((e dec - b)^2 - 4 (d dec - a) (f dec - c))/(2 (a - d dec))
+y = ((e dec - b) ± sqrt((e dec - b)^2 - 4 (d dec - a) (f dec - c))) / (2 (a - d dec))
 */
 func calcRatFunc(dec float64, cm *a2l.CompuMethod) (float64, error) {
 	var err error
-	//following formula defines f(Physical) = Decimal
-	//y = (axx + bx + c) / (dxx + ex + f)
-	//inverted fi(Decimal) = Physical
-	//y = (e dec - b)/(2 (a - d dec)) ± sqrt((e dec - b)^2 - 4 (d dec - a) (f dec - c))/(2 (a - d dec))
-	firstDivisor := (2 * (cm.Coeffs.A - cm.Coeffs.D*dec))
-	if firstDivisor == 0 {
-		err = errors.New("rationality function cannot be computed(zero divisor) for compuMethod: " + cm.Name)
-		log.Err(err).Msg("decimal value could not be converted")
-		return 0, err
-	}
-	secondDivisorPositive := (2 * (cm.Coeffs.A - cm.Coeffs.D*dec)) +
-		math.Sqrt(math.Pow((cm.Coeffs.E*dec-cm.Coeffs.B), 2)-4*(cm.Coeffs.D*dec-cm.Coeffs.A)*(cm.Coeffs.F*dec-cm.Coeffs.C))/firstDivisor
-	secondDivisorNegative := (2 * (cm.Coeffs.A - cm.Coeffs.D*dec)) -
-		math.Sqrt(math.Pow((cm.Coeffs.E*dec-cm.Coeffs.B), 2)-4*(cm.Coeffs.D*dec-cm.Coeffs.A)*(cm.Coeffs.F*dec-cm.Coeffs.C))/firstDivisor
-
-	if secondDivisorPositive != 0 && secondDivisorNegative != 0 {
-		plusVal := (cm.Coeffs.E*dec - cm.Coeffs.B) / secondDivisorPositive
-		minusVal := (cm.Coeffs.E*dec - cm.Coeffs.B) / secondDivisorNegative
-		testVal := (cm.Coeffs.A*plusVal*plusVal + cm.Coeffs.B*plusVal + cm.Coeffs.C) / (cm.Coeffs.D*plusVal*plusVal + cm.Coeffs.E*plusVal + cm.Coeffs.F)
-		if testVal == dec {
-			return plusVal, err
-		} else {
-			return minusVal, err
+	//the physical value is a solution of (a - d dec)xx + (b - e dec)x + (c - f dec) = 0
+	quadratic := cm.Coeffs.A - cm.Coeffs.D*dec
+	linear := cm.Coeffs.B - cm.Coeffs.E*dec
+	constant := cm.Coeffs.C - cm.Coeffs.F*dec
+	if quadratic == 0 {
+		if linear == 0 {
+			err = errors.New("rationality function cannot be computed(zero divisor) for compuMethod: " + cm.Name)
+			log.Err(err).Msg("decimal value could not be converted")
+			return 0, err
 		}
-	} else if secondDivisorPositive != 0 {
-		plusVal := (cm.Coeffs.E*dec - cm.Coeffs.B) / secondDivisorPositive
-		return plusVal, err
-	} else if secondDivisorNegative != 0 {
-		minusVal := (cm.Coeffs.E*dec - cm.Coeffs.B) / secondDivisorNegative
-		return minusVal, err
-	} else {
-		err = errors.New("rationality function cannot be computed(zero divisor) for compuMethod: " + cm.Name)
+		return -constant / linear, err
+	}
+	radicand := linear*linear - 4*quadratic*constant
+	if radicand < 0 {
+		err = errors.New("rationality function cannot be computed(no real solution) for compuMethod: " + cm.Name)
 		log.Err(err).Msg("decimal value could not be converted")
 		return 0, err
 	}
-
+	return (-linear + math.Sqrt(radicand)) / (2 * quadratic), err
 }
 
 func calcTabNoIntp(dec float64, cm *a2l.CompuMethod, cd *CalibrationData) (float64, error) {
-- 
2.43.0


From 350d2aa405804b3cb058541034c2c084eba56132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:39 +0000
Subject: [PATCH 36/36] fix: build the tokens from the whole text instead of
 from parts cut at arbitrary lines

A comment, a quoted text or a two-word keyword that ran over the border of
two parts was tokenized differently depending on the number of CPUs.
---
 a2l/token_generator.go | 40 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/a2l/token_generator.go b/a2l/token_generator.go
index d8eb115..31c4fd5 100755
--- a/a2l/token_generator.go
+++ b/a2l/token_generator.go
@@ -51,10 +51,8 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 	str = strings.ReplaceAll(str, `\"`, `'`)
 
 	//Split text file into lines and the lines into words separated by whitespace
-	var locTokens []chan []string
-	//each go routine sends at most one error
-	locErrors := make(chan error, numProc)
-	tokenList = make([]string, 0, expectedNumberOfTokens)
+	var locFields []chan [][]string
+	fields := make([][]string, 0, expectedNumberOfTokens/numProc)
 	lines := strings.Split(str, "\n")
 	for i := 0; i < numProc; i++ {
 		//calculate start and end for the slices each go routine is given to parse
@@ -64,22 +62,24 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 			//integer divisions might round up or down, so we make sure that we get the "real" end here
 			end = len(lines)
 		}
-		c := make(chan []string, 1)
-		locTokens = append(locTokens, c)
-		go tokenBuilderRoutine(lines[start:end], c, locErrors)
+		c := make(chan [][]string, 1)
+		locFields = append(locFields, c)
+		go splitLinesRoutine(lines[start:end], c)
 	}
-	//collect token lists from channels
-	for _, c := range locTokens {
-		for t := range c {
-			tokenList = append(tokenList, t...)
+	//collect words of all lines from channels
+	for _, c := range locFields {
+		for f := range c {
+			fields = append(fields, f...)
 		}
 	}
-	//all go routines have closed their channels by now, so no more errors can be sent
-	close(locErrors)
-	for err := range locErrors {
+	//comments and texts in quotation marks may run over several lines,
+	//so the tokens can only be built from the lines of the whole text.
+	tl, err := buildTokenList(fields)
+	if err != nil {
+		log.Err(err).Msg("could not build tokens")
 		return tokenGenerator{}, err
 	}
-	tokenList = append(tokenList, emptyToken)
+	tokenList = append(tl, emptyToken)
 	tg := tokenGenerator{}
 	tg.index = 0
 	/*Set multithreading flag in accordance with the number of modules
@@ -95,7 +95,8 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 	return tg, nil
 }
 
-func tokenBuilderRoutine(lines []string, c chan []string, ce chan error) {
+// splitLinesRoutine splits each line given into words and returns them via a channel.
+func splitLinesRoutine(lines []string, c chan [][]string) {
 	//initialize fields with the expected capacity of tokens it will have to hold in order to avoid reallocations
 	fields := make([][]string, 0, expectedNumberOfTokens/numProc)
 	for _, l := range lines {
@@ -103,12 +104,7 @@ func tokenBuilderRoutine(lines []string, c chan []string, ce chan error) {
 			fields = append(fields, strings.Fields(l))
 		}
 	}
-	tl, err := buildTokenList(fields)
-	if err != nil {
-		log.Err(err).Msg("could not build tokens")
-		ce <- err
-	}
-	c <- tl
+	c <- fields
 	close(c)
 }
 
-- 
2.43.0

