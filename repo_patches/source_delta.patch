From 9b614d3937d7ed0b4fe97a00de61e6b621bb4f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 01/35] fix: report dates shorter than five characters instead
 of panicking

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 3e9b6cc..2573992 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -123,6 +123,10 @@ func parseDate(content []rune) (time.Time, error) {
 	var date time.Time
 	var err error
 
+	if len(content) < 5 {
+		return time.Time{}, fmt.Errorf("date is malformed: %s", s)
+	}
+
 	switch content[4] {
 	case '-':
 		date, err = time.Parse(dashDateFormat, s)
-- 
2.43.0


From cb32afdbad79bf3cfbd5be555b2e9b8b411efa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 02/35] fix: read amounts exactly or reject them

---
 parser/parser.go | 70 +++++++++++++++++++++++-------------------------
 1 file changed, 34 insertions(+), 36 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 2573992..fbe9632 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -145,55 +145,53 @@ func parseDate(content []rune) (time.Time, error) {
 	return date, nil
 }
 
+// parseAmount reads an optional sign, whole digits and, optionally, a point and one or two decimals
 func parseAmount(content []rune) (int64, error) {
+	malformed := func() (int64, error) {
+		return 0, fmt.Errorf("amount is malformed: %s", string(content))
+	}
+
 	// Handle signs
-	firstRune := content[0]
-	var multiplier int64
-	if firstRune == '+' {
-		multiplier = 1
-		content = content[1:]
-	} else if firstRune == '-' {
-		multiplier = -1
-		content = content[1:]
-	} else {
-		multiplier = 1
+	digits := content
+	negative := false
+	if len(digits) > 0 && (digits[0] == '+' || digits[0] == '-') {
+		negative = digits[0] == '-'
+		digits = digits[1:]
 	}
 
-	// Find out if we have a decimal number
-	decimalPosition := -1
-	for i, r := range content {
+	// Find whole and decimal
+	whole, decimal := digits, []rune{}
+	for i, r := range digits {
 		if r == '.' {
-			decimalPosition = i
+			whole, decimal = digits[:i], digits[i+1:]
+			if len(decimal) == 0 {
+				return malformed()
+			}
 			break
 		}
 	}
+	if len(whole) == 0 || len(decimal) > 2 {
+		return malformed()
+	}
 
-	// Find whole and decimal
-	var whole int64
-	var decimal int64
-	var err error
-	if decimalPosition == -1 {
-		// TODO: consider https://stackoverflow.com/a/29255836
-		whole, err = strconv.ParseInt(string(content), 10, 64)
-		decimal = 0
-
-		if err != nil {
-			return 0, err
-		}
-	} else {
-		whole, err = strconv.ParseInt(string(content[:decimalPosition]), 10, 64)
-		if err != nil {
-			return 0, err
-		}
-		decimal, err = strconv.ParseInt(string(content[decimalPosition+1:]), 10, 64)
-		if err != nil {
-			return 0, err
+	// Amounts are counted in hundredths
+	hundredths := append([]rune{}, whole...)
+	hundredths = append(hundredths, decimal...)
+	for i := len(decimal); i < 2; i++ {
+		hundredths = append(hundredths, '0')
+	}
+	for _, r := range hundredths {
+		if r < '0' || r > '9' {
+			return malformed()
 		}
 	}
 
-	quantity := multiplier * (whole*100 + decimal)
+	s := string(hundredths)
+	if negative {
+		s = "-" + s
+	}
 
-	return quantity, nil
+	return strconv.ParseInt(s, 10, 64)
 }
 
 func parsePeriod(content []rune) (journal.Period, error) {
-- 
2.43.0


From fd353d578eef77fda66aa1ff64c5a9ee77fc7ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 03/35] fix: read what follows payees, accounts and amounts as
 comments or reject it

---
 parser/lexer.go | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index d39606d..892413c 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -219,15 +219,17 @@ func (l *lexer) lexTransactionHeader() error {
 		return err
 	}
 
-	comment := l.takeToNextLine()
-	if len(comment) > 0 {
-		c := trimSpaceStart(comment[1:])
-		if err = l.parser(transactionHeaderCommentItem, c); err != nil {
-			return err
-		}
+	// Only a comment can follow the payee
+	l.consumeSpace()
+	next = l.next()
+	if next == eof {
+		return nil
+	}
+	if !isCommentIndicator(next) {
+		return errors.New("unexpected text following payee")
 	}
 
-	return nil
+	return l.parser(transactionHeaderCommentItem, l.takeToNextLine())
 }
 
 func (l *lexer) lexPosting() error {
@@ -257,6 +259,11 @@ func (l *lexer) lexPosting() error {
 			return nil
 		}
 
+		// The amount can be elided
+		if next := l.peek(); next == eof || isCommentIndicator(next) {
+			return l.lexTrailingComment()
+		}
+
 		// Lex the commodity
 		commodity := l.lexCommodity()
 		if l.consumeSpace() > 0 {
@@ -272,7 +279,7 @@ func (l *lexer) lexPosting() error {
 			return err
 		}
 
-		return nil
+		return l.lexTrailingComment()
 	}
 
 	// If we didn't lex anything, we should reset the parser
@@ -281,6 +288,21 @@ func (l *lexer) lexPosting() error {
 	return nil
 }
 
+// Lexes what follows the amount of a posting, which can only be a comment
+func (l *lexer) lexTrailingComment() error {
+	l.consumeSpace()
+
+	next := l.next()
+	if next == eof {
+		return nil
+	}
+	if !isCommentIndicator(next) {
+		return errors.New("unexpected text at the end of the posting")
+	}
+
+	return l.parser(commentItem, l.takeToNextLine())
+}
+
 // Takes until a number or a space
 func (l *lexer) lexCommodity() []rune {
 	runes := make([]rune, 0, runeBufferCapacity)
@@ -381,6 +403,8 @@ func (l *lexer) takeToTabOrNextLineOrComment() []rune {
 		}
 
 		if isCommentIndicator(r) {
+			// leave the indicator to be lexed
+			l.backup()
 			return trimSpace(runes)
 		}
 
-- 
2.43.0


From 7abe5f3cb81fe49f44fe2d44430b2807f864cb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:45 +0000
Subject: [PATCH 04/35] fix: trim comments that consist of spaces

---
 parser/lexer.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 892413c..cd07224 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -484,17 +484,11 @@ func equal(a, b []rune) bool {
 }
 
 func trimSpaceStart(runes []rune) []rune {
-	if len(runes) == 0 {
-		return runes
-	}
-
-	index := 0
 	for i, r := range runes {
 		if r != ' ' {
-			index = i
-			break
+			return runes[i:]
 		}
 	}
 
-	return runes[index:]
+	return runes[:0]
 }
-- 
2.43.0


From 9daf68c65b4c94e8a754a3627ab8095f8c18ea28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:47 +0000
Subject: [PATCH 05/35] fix: reject posting lines that cannot be read instead
 of skipping them

---
 parser/lexer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index cd07224..c6f9f7e 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -282,10 +282,12 @@ func (l *lexer) lexPosting() error {
 		return l.lexTrailingComment()
 	}
 
-	// If we didn't lex anything, we should reset the parser
-	l.backup()
+	// A line of nothing but space is not a posting
+	if firstRune == eof {
+		return nil
+	}
 
-	return nil
+	return errors.New("unexpected posting: accounts must start with a letter")
 }
 
 // Lexes what follows the amount of a posting, which can only be a comment
-- 
2.43.0


From 3ec678b70a148721c0d9de24392267aa285474c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:48 +0000
Subject: [PATCH 06/35] fix: handle postings and comments outside of a
 transaction without panicking

---
 parser/transactionbuilder.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index 317b6f3..ebc9e14 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -48,6 +48,14 @@ func (tb *transactionBuilder) beginTransaction(t transactionType) {
 }
 
 func (tb *transactionBuilder) build(t itemType, content []rune) error {
+	// If there is no open transaction, comments do not belong to anything
+	if tb.currentPosting == nil {
+		if t == commentItem {
+			return nil
+		}
+		return fmt.Errorf("%s outside of a transaction", t)
+	}
+
 	switch tb.transactionType {
 	case normalTransaction:
 		if err := tb.buildNormalTransaction(tb.transaction, t, content); err != nil {
@@ -66,13 +74,13 @@ func (tb *transactionBuilder) build(t itemType, content []rune) error {
 func (tb *transactionBuilder) buildNormalTransaction(t *journal.Transaction, item itemType, content []rune) error {
 	switch item {
 	case transactionHeaderCommentItem:
-		tb.transaction.HeaderNote = string(content)
+		t.HeaderNote = string(content)
 	case commentItem:
 		// check if we've got a posting to attach the comment to
 		if len(tb.currentPosting.AccountPath) != 0 {
 			tb.currentPosting.AddComment(string(content))
 		} else {
-			tb.transaction.AddNote(string(content))
+			t.AddNote(string(content))
 		}
 	case dateItem:
 		date, err := parseDate(content)
-- 
2.43.0


From d9e34f786aa8a3b18515fedb69176fae2b03140a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 07/35] fix: reject a second posting without an amount instead
 of dropping it

---
 parser/transactionbuilder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index ebc9e14..4d3d412 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -119,7 +119,9 @@ func (tb *transactionBuilder) buildNormalTransaction(t *journal.Transaction, ite
 
 		// Accounts start a posting, so check if we need to start a new one
 		if len(tb.currentPosting.AccountPath) != 0 {
-			t.AddPosting(tb.currentPosting)
+			if err := t.AddPosting(tb.currentPosting); err != nil {
+				return err
+			}
 			tb.currentPosting = journal.NewPosting()
 		}
 
-- 
2.43.0


From 0f3d4701012d02857fdb668555a0e2b89c8334cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 08/35] fix: do not add an empty posting to transactions
 without postings

---
 parser/transactionbuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index 4d3d412..8596b7c 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -216,7 +216,7 @@ func (tb *transactionBuilder) endTransaction(p Parser) error {
 
 func (tb *transactionBuilder) endNormalTransaction(t *journal.Transaction, p Parser) error {
 	// Make sure we add the last open posting
-	if tb.currentPosting != nil {
+	if tb.currentPosting != nil && len(tb.currentPosting.AccountPath) != 0 {
 		if err := t.AddPosting(tb.currentPosting); err != nil {
 			return err
 		}
-- 
2.43.0


From 25a6850ed33ebbf97d78d98d1631ba8600c95ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:05 +0000
Subject: [PATCH 09/35] fix: give an elided amount its value when the other
 amounts sum to zero

---
 journal/transaction.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/journal/transaction.go b/journal/transaction.go
index 6fd9857..3b8e383 100644
--- a/journal/transaction.go
+++ b/journal/transaction.go
@@ -108,13 +108,14 @@ func (t *Transaction) Close() error {
 		sum += p.Amount.Quantity
 	}
 
-	if sum != 0 {
-		if t.postingWithElidedAmount == nil {
-			return errors.New("transaction does not balance")
-		}
-
+	if t.postingWithElidedAmount != nil {
 		// NB: setting the commodity like this will not work with multiple currencies
 		t.postingWithElidedAmount.Amount = NewAmount(c, -sum)
+		return nil
+	}
+
+	if sum != 0 {
+		return errors.New("transaction does not balance")
 	}
 
 	return nil
-- 
2.43.0


From 13984cf8df87c65c501e2695189f6b4c9c9badb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:28 +0000
Subject: [PATCH 10/35] fix: do not accept transactions whose sum overflows as
 balanced

---
 journal/transaction.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/journal/transaction.go b/journal/transaction.go
index 3b8e383..6055748 100644
--- a/journal/transaction.go
+++ b/journal/transaction.go
@@ -3,6 +3,7 @@ package journal
 import (
 	"errors"
 	"fmt"
+	"math"
 	"time"
 )
 
@@ -105,10 +106,18 @@ func (t *Transaction) Close() error {
 		if len(p.Amount.Commodity) > 0 {
 			c = p.Amount.Commodity
 		}
+		previous := sum
 		sum += p.Amount.Quantity
+		if (sum > previous) != (p.Amount.Quantity > 0) && p.Amount.Quantity != 0 {
+			return errors.New("amounts are too large to be summed")
+		}
 	}
 
 	if t.postingWithElidedAmount != nil {
+		if sum == math.MinInt64 {
+			return errors.New("amounts are too large to be summed")
+		}
+
 		// NB: setting the commodity like this will not work with multiple currencies
 		t.postingWithElidedAmount.Amount = NewAmount(c, -sum)
 		return nil
-- 
2.43.0


From 54d660bc7624fd98dad369a7f7397ce672ea43f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 11/35] fix: attribute transactions after nested includes to
 the right file

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index fbe9632..003cbb5 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -82,7 +82,7 @@ func (p *Parser) parseItem(t itemType, content []rune) error {
 		}
 
 		// Drop the file from the slice
-		p.journalFiles = p.journalFiles[:1]
+		p.journalFiles = p.journalFiles[:len(p.journalFiles)-1]
 	case dateItem:
 		// This will start a transaction so check if we need to close a previous one
 		// in case there is no empty line between transactions
-- 
2.43.0


From ba02538424f92ccc97384e806214b5d377130b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 12/35] fix: end the transaction that precedes an include
 directive

---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 003cbb5..95e170b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -64,6 +64,11 @@ func (p *Parser) parseItem(t itemType, content []rune) error {
 	case includeItem:
 		path := string(content)
 
+		// The transaction before the include directive ends here
+		if err := p.transactionBuilder.endTransaction(*p); err != nil {
+			return err
+		}
+
 		// Add the file to the slice
 		p.journalFiles = append(p.journalFiles, path)
 
-- 
2.43.0


From bf031bee7827c5df6cfcf967b0913276b081df88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 13/35] fix: report files that include themselves instead of
 recursing without end

---
 parser/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 95e170b..34d4a12 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"path/filepath"
 	"strconv"
 	"time"
 
@@ -69,6 +70,13 @@ func (p *Parser) parseItem(t itemType, content []rune) error {
 			return err
 		}
 
+		// A file that includes itself would never end
+		for _, open := range p.journalFiles {
+			if filepath.Clean(open) == filepath.Clean(path) {
+				return fmt.Errorf("%s includes itself", path)
+			}
+		}
+
 		// Add the file to the slice
 		p.journalFiles = append(p.journalFiles, path)
 
-- 
2.43.0


From e2880031e1fefa2e13ae1a8d544cbaa8064f51ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 14/35] fix: say where errors found at the end of a file are

---
 parser/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index c6f9f7e..98d9bfc 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -85,7 +85,7 @@ func (l *lexer) lex() error {
 				// Let the parser know we have reached the end of the file
 				parseError := l.parser(eofItem, nil)
 				if parseError != nil {
-					return parseError
+					return fmt.Errorf("%s:%d\n%w", l.locationHint, l.currentLine, parseError)
 				}
 				break
 			}
-- 
2.43.0


From 13f356125f645fede7e06e539da2638a7936a892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 15/35] fix: compare dates of transactions with --begin, --end
 and --current by calendar day

---
 cmd/common.go   | 18 +++++++++++-------
 parser/dates.go | 30 ++++++++++++++++++------------
 2 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/cmd/common.go b/cmd/common.go
index 94d9ae3..38af588 100644
--- a/cmd/common.go
+++ b/cmd/common.go
@@ -101,26 +101,30 @@ func withinDateRange(t *journal.Transaction) (bool, error) {
 	var err error
 	var start, end time.Time
 
-	if len(beginDate) > 0 && !current {
-		start, err = parser.ParseSmartDate(beginDate)
+	// The dates of transactions are midnights in UTC so the bounds need to be too
+	hasStart := len(beginDate) > 0 && !current
+	if hasStart {
+		start, err = parser.ParseSmartDateInLocation(beginDate, time.UTC)
 		if err != nil {
 			return false, err
 		}
 	}
 
-	if len(endDate) > 0 && !current {
-		end, err = parser.ParseSmartDate(endDate)
+	hasEnd := len(endDate) > 0 && !current
+	if hasEnd {
+		end, err = parser.ParseSmartDateInLocation(endDate, time.UTC)
 		if err != nil {
 			return false, err
 		}
 	}
 
 	if current {
-		start = time.Time{}
-		end = time.Now().AddDate(0, 0, 1)
+		year, month, day := time.Now().Date()
+		end = time.Date(year, month, day+1, 0, 0, 0, 0, time.UTC)
+		hasEnd = true
 	}
 
-	withinRange := (t.Date.Equal(start) || t.Date.After(start)) && (end.IsZero() || t.Date.Before(end))
+	withinRange := (!hasStart || t.Date.Equal(start) || t.Date.After(start)) && (!hasEnd || t.Date.Before(end))
 
 	return withinRange, nil
 }
diff --git a/parser/dates.go b/parser/dates.go
index ce7fb68..3b238a7 100644
--- a/parser/dates.go
+++ b/parser/dates.go
@@ -8,7 +8,13 @@ import (
 	"time"
 )
 
+// ParseSmartDate parses the date in the local time zone
 func ParseSmartDate(date string) (time.Time, error) {
+	return ParseSmartDateInLocation(date, time.Local)
+}
+
+// ParseSmartDateInLocation parses the date in the given time zone
+func ParseSmartDateInLocation(date string, location *time.Location) (time.Time, error) {
 	/* Mon Jan 2 15:04:05 MST 2006
 	04 - 2006
 	07 - 2006/01
@@ -34,20 +40,20 @@ func ParseSmartDate(date string) (time.Time, error) {
 
 	switch len(components) {
 	case 1: // year
-		return parseYear(date)
+		return parseYear(date, location)
 	case 2: // year/month or month/day
 		if len(components[0]) == 4 {
-			return parseYearMonth(date, separator)
+			return parseYearMonth(date, separator, location)
 		}
-		return parseMonthDay(date, separator)
+		return parseMonthDay(date, separator, location)
 	case 3: // year/month/day
-		return parseYearMonthDay(date, separator)
+		return parseYearMonthDay(date, separator, location)
 	default:
 		return time.Time{}, errors.New("unhandled number of smart date components")
 	}
 }
 
-func parseYear(date string) (time.Time, error) {
+func parseYear(date string, location *time.Location) (time.Time, error) {
 	if len(date) != 4 {
 		return time.Time{}, fmt.Errorf("could not parse year: '%s'", date)
 	}
@@ -57,11 +63,11 @@ func parseYear(date string) (time.Time, error) {
 		return time.Time{}, err
 	}
 
-	return time.Date(year, time.January, 1, 0, 0, 0, 0, time.Local), nil
+	return time.Date(year, time.January, 1, 0, 0, 0, 0, location), nil
 }
 
 // parseYearMonth expects dates in the format 2020/06
-func parseYearMonth(date string, separator rune) (time.Time, error) {
+func parseYearMonth(date string, separator rune, location *time.Location) (time.Time, error) {
 	var format string
 	switch separator {
 	case '/':
@@ -74,7 +80,7 @@ func parseYearMonth(date string, separator rune) (time.Time, error) {
 		return time.Time{}, errors.New("unhandled date format")
 	}
 
-	parsed, err := time.ParseInLocation(format, date, time.Local)
+	parsed, err := time.ParseInLocation(format, date, location)
 	if err != nil {
 		return time.Time{}, err
 	}
@@ -83,7 +89,7 @@ func parseYearMonth(date string, separator rune) (time.Time, error) {
 }
 
 // parseMonthDaty expected dates in the format 06/22
-func parseMonthDay(date string, separator rune) (time.Time, error) {
+func parseMonthDay(date string, separator rune, location *time.Location) (time.Time, error) {
 	year := time.Now().Year()
 	var format, dateWithYear string
 	switch separator {
@@ -100,7 +106,7 @@ func parseMonthDay(date string, separator rune) (time.Time, error) {
 		return time.Time{}, errors.New("unhandled date format")
 	}
 
-	parsed, err := time.ParseInLocation(format, dateWithYear, time.Local)
+	parsed, err := time.ParseInLocation(format, dateWithYear, location)
 	if err != nil {
 		return time.Time{}, err
 	}
@@ -109,7 +115,7 @@ func parseMonthDay(date string, separator rune) (time.Time, error) {
 }
 
 // parseYearMonthDay expects dates in the format 2020/06/22
-func parseYearMonthDay(date string, separator rune) (time.Time, error) {
+func parseYearMonthDay(date string, separator rune, location *time.Location) (time.Time, error) {
 	var format string
 	switch separator {
 	case '/':
@@ -122,7 +128,7 @@ func parseYearMonthDay(date string, separator rune) (time.Time, error) {
 		return time.Time{}, errors.New("unhandled date format")
 	}
 
-	parsed, err := time.ParseInLocation(format, date, time.Local)
+	parsed, err := time.ParseInLocation(format, date, location)
 	if err != nil {
 		return time.Time{}, err
 	}
-- 
2.43.0


From cabede0139881027929529470304d791487d8078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 16/35] fix: do not read signed numbers as years

---
 parser/dates.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/dates.go b/parser/dates.go
index 3b238a7..a7962a0 100644
--- a/parser/dates.go
+++ b/parser/dates.go
@@ -62,6 +62,9 @@ func parseYear(date string, location *time.Location) (time.Time, error) {
 	if err != nil {
 		return time.Time{}, err
 	}
+	if date[0] == '+' || date[0] == '-' {
+		return time.Time{}, fmt.Errorf("could not parse year: '%s'", date)
+	}
 
 	return time.Date(year, time.January, 1, 0, 0, 0, 0, location), nil
 }
-- 
2.43.0


From ef96a08a9654c29838c7df7f9014f6495f4f45c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:46 +0000
Subject: [PATCH 17/35] fix: accept an empty filter argument without panicking

---
 reporting/filter.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/reporting/filter.go b/reporting/filter.go
index 236b1da..bb84a89 100644
--- a/reporting/filter.go
+++ b/reporting/filter.go
@@ -2,6 +2,7 @@ package reporting
 
 import (
 	"regexp"
+	"strings"
 	"unicode"
 
 	"github.com/rikchilvers/gledger/journal"
@@ -32,11 +33,11 @@ type Filter struct {
 func NewFilter(arg string) (Filter, error) {
 	filter := Filter{}
 
-	switch []rune(arg)[0] {
-	case '@':
+	switch {
+	case strings.HasPrefix(arg, "@"):
 		filter.FilterType = PayeeFilter
 		arg = arg[1:]
-	case '=':
+	case strings.HasPrefix(arg, "="):
 		filter.FilterType = NoteFilter
 		arg = arg[1:]
 	default:
-- 
2.43.0


From fe53922c10f2b521257417106bc2c3c95ea0ee33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 18/35] fix: return filtered postings in the order of the
 transaction

---
 cmd/common.go       | 7 +++++--
 reporting/filter.go | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/cmd/common.go b/cmd/common.go
index 38af588..64c5229 100644
--- a/cmd/common.go
+++ b/cmd/common.go
@@ -158,8 +158,11 @@ func checkAgainstFilters(t *journal.Transaction) (matchedTransaction bool, posti
 			matchedPostings[p] = true
 		}
 	}
-	for k := range matchedPostings {
-		postings = append(postings, k)
+	// Keep the order of the transaction
+	for _, p := range t.Postings {
+		if matchedPostings[p] {
+			postings = append(postings, p)
+		}
 	}
 
 	return false, postings, nil
diff --git a/reporting/filter.go b/reporting/filter.go
index bb84a89..37f4f6d 100644
--- a/reporting/filter.go
+++ b/reporting/filter.go
@@ -87,8 +87,11 @@ func (f Filter) MatchesTransactionHow(t journal.Transaction) (matchesPayee, matc
 		}
 	}
 
-	for k := range mp {
-		matchedPostings = append(matchedPostings, k)
+	// Keep the order of the transaction
+	for _, p := range t.Postings {
+		if mp[p] {
+			matchedPostings = append(matchedPostings, p)
+		}
 	}
 	return
 }
-- 
2.43.0


From 6ff21f4b5452a9969fc56603b7df545c40a96a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 19/35] fix: give every account its own path components

---
 journal/account.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/journal/account.go b/journal/account.go
index 15a2447..ae0f7ce 100644
--- a/journal/account.go
+++ b/journal/account.go
@@ -101,7 +101,9 @@ func newAccountWithChildren(parent *Account, components []string) *Account {
 	if parent == nil || parent.Name == RootID || parent.Name == BudgetRootID {
 		child.PathComponents = []string{components[0]}
 	} else {
-		child.PathComponents = append(parent.PathComponents, components[0])
+		// Copy so that siblings do not share the parent's spare capacity
+		child.PathComponents = append([]string{}, parent.PathComponents...)
+		child.PathComponents = append(child.PathComponents, components[0])
 	}
 
 	child.Path = child.CreatePath()
-- 
2.43.0


From 4729090a33fd1cbcdd977332d8dd6a6d1d9a7467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 20/35] fix: display large amounts exactly

---
 journal/amount.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/journal/amount.go b/journal/amount.go
index c876e15..8f2d06f 100644
--- a/journal/amount.go
+++ b/journal/amount.go
@@ -24,8 +24,13 @@ func (a Amount) String() string {
 
 // DisplayableQuantity formats the Amount's commodity and quantity
 func (a Amount) DisplayableQuantity(withCommodity bool) string {
-	q := float64(a.Quantity) / 100
-	amount := fmt.Sprintf("%.2f", q)
+	sign := ""
+	hundredths := uint64(a.Quantity)
+	if a.Quantity < 0 {
+		sign = "-"
+		hundredths = -hundredths
+	}
+	amount := fmt.Sprintf("%s%d.%02d", sign, hundredths/100, hundredths%100)
 	if withCommodity {
 		return fmt.Sprintf("%s%s", a.Commodity, amount)
 	}
-- 
2.43.0


From 549d39233ca6139fd3286267e5300def2a5acf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:42 +0000
Subject: [PATCH 21/35] fix: do not hide non-zero accounts along with their
 zero parents

---
 journal/account.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/journal/account.go b/journal/account.go
index ae0f7ce..d9d8e20 100644
--- a/journal/account.go
+++ b/journal/account.go
@@ -193,15 +193,11 @@ func (a *Account) findAccounts(matcher func(a Account) bool, found []*Account) [
 
 func (a *Account) RemoveEmptyChildren() {
 	matcher := func(a Account) bool {
-		return a.Amount.Quantity == 0
-	}
-	matching := a.FindAccounts(matcher)
-	for _, m := range matching {
-		if m.Name == RootID {
-			continue
-		}
-		m.Unlink()
+		return a.Amount.Quantity != 0
 	}
+
+	// An empty account stays if there are non-empty ones beneath it
+	a.RemoveChildren(matcher)
 }
 
 // Unlink removes this account from it's parents
-- 
2.43.0


From db2d629cb9e0c10e49c13cd81a59bb9e7d400883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 22/35] fix: print transactions of the same date in the order
 they were read

---
 cmd/print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/print.go b/cmd/print.go
index 19e4f94..fef79a0 100644
--- a/cmd/print.go
+++ b/cmd/print.go
@@ -52,7 +52,7 @@ func (pj *printJournal) transactionHandler(t *journal.Transaction, _ string) err
 }
 
 func (pj *printJournal) prepare() {
-	sort.Slice(pj.transactions, func(i, j int) bool {
+	sort.SliceStable(pj.transactions, func(i, j int) bool {
 		return pj.transactions[i].Date.Before(pj.transactions[j].Date)
 	})
 }
-- 
2.43.0


From 7b86162af0e81834fd76e43e071d97f719d8cb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 23/35] fix: count days and the first and last transaction
 exactly in statistics

---
 cmd/stats.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cmd/stats.go b/cmd/stats.go
index 98c7926..5fc6361 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -78,12 +78,12 @@ func (js *statisticsJournal) transactionHandler(t *journal.Transaction, path str
 	js.transactionCount++
 
 	// Check start date
-	if js.firstTransactionDate.IsZero() || t.Date.Before(js.firstTransactionDate) {
+	if js.transactionCount == 1 || t.Date.Before(js.firstTransactionDate) {
 		js.firstTransactionDate = t.Date
 	}
 
 	// Check end date
-	if js.lastTransactionDate.IsZero() || t.Date.After(js.lastTransactionDate) {
+	if js.transactionCount == 1 || t.Date.After(js.lastTransactionDate) {
 		js.lastTransactionDate = t.Date
 	}
 
@@ -175,6 +175,12 @@ expenseLoop:
 	js.ageOfMoney = math.Max(summedAges.Hours()/24, 0)
 }
 
+// daysBetween counts the days from one date to another
+// Durations can only span 292 years
+func daysBetween(first, last time.Time) float64 {
+	return math.Round(float64(last.Unix()-first.Unix()) / (24 * 60 * 60))
+}
+
 func (js *statisticsJournal) report() {
 	if js.transactionCount == 0 {
 		fmt.Println("No transactions matched arguments.")
@@ -192,12 +198,12 @@ func (js *statisticsJournal) report() {
 	fmt.Printf("Last transaction:\t%s (%s)\n", js.lastTransactionDate.Format(dateLayout), humanize.Time(js.lastTransactionDate))
 
 	// Report duration
-	duration := js.lastTransactionDate.Sub(js.firstTransactionDate)
-	days := math.Round(duration.Hours() / 24)
+	days := daysBetween(js.firstTransactionDate, js.lastTransactionDate)
 	fmt.Printf("Time period:\t\t%.f days\n", days)
 
 	// Report transaction count
-	transactionsPerDay := float64(js.transactionCount) / days
+	// (a single day counts as one even though there are no days between its transactions)
+	transactionsPerDay := float64(js.transactionCount) / math.Max(1, days)
 	fmt.Printf("Transactions:\t\t%d (%.1f per day)\n", js.transactionCount, transactionsPerDay)
 
 	// Report number of unique accounts
-- 
2.43.0


From 78b36f49545b568f6ac426dc7e54b0039deacdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:45 +0000
Subject: [PATCH 24/35] fix: list the files of the journal in a fixed order

---
 cmd/stats.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/stats.go b/cmd/stats.go
index 5fc6361..35cab6b 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -189,7 +189,12 @@ func (js *statisticsJournal) report() {
 
 	// Report the files
 	fmt.Printf("Transactions found in %d files:\n", len(js.journalFiles))
+	files := make([]string, 0, len(js.journalFiles))
 	for p := range js.journalFiles {
+		files = append(files, p)
+	}
+	sort.Strings(files)
+	for _, p := range files {
 		fmt.Printf("  %s\n", p)
 	}
 
-- 
2.43.0


From 5f79093484cac5807913693cac6618034cd3a7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 25/35] fix: average the ages of the final ten draws

---
 cmd/stats.go | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/cmd/stats.go b/cmd/stats.go
index 35cab6b..2273ba9 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -132,7 +132,7 @@ func (js *statisticsJournal) prepare() {
 	})
 
 	// Calculate age of money
-	ages := make([]time.Duration, 0)
+	ages := make([]float64, 0)
 
 expenseLoop:
 	for _, ek := range expenseKeys {
@@ -144,8 +144,7 @@ expenseLoop:
 				continue
 			}
 
-			duration := ek.Sub(ik)
-			ages = append(ages, duration)
+			ages = append(ages, daysBetween(ik, ek))
 
 			// Handle not having enough in the income bucket
 			if expense > income {
@@ -158,21 +157,18 @@ expenseLoop:
 		}
 	}
 
-	rangeCap := 0
-	if len(ages) > 20 {
-		rangeCap = 11
+	// we only care about the final 10
+	if len(ages) > 10 {
+		ages = ages[len(ages)-10:]
 	}
-	var summedAges time.Duration = 0
-	for _, a := range ages[:len(ages)-rangeCap] { // we only care about the final 10
+	summedAges := 0.0
+	for _, a := range ages {
 		summedAges += a
 	}
 
 	// filter arguments could mean there were no transactions to process
-	// so we need to guard against dividing by 0 later
-	count := int64(math.Max(1, float64(len(ages))))
-	summedAges = time.Duration(summedAges.Nanoseconds() / count)
-
-	js.ageOfMoney = math.Max(summedAges.Hours()/24, 0)
+	// so we need to guard against dividing by 0
+	js.ageOfMoney = math.Max(summedAges/math.Max(1, float64(len(ages))), 0)
 }
 
 // daysBetween counts the days from one date to another
-- 
2.43.0


From 1e9c5fe95d2bf980671eacca8ae2524349548a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 26/35] fix: show budgeted amounts and activity in their own
 columns

---
 cmd/budget.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/budget.go b/cmd/budget.go
index a982ea5..e2adaf1 100644
--- a/cmd/budget.go
+++ b/cmd/budget.go
@@ -152,7 +152,7 @@ func (bp *budgetProcessor) report() {
 				panic(err)
 			}
 
-			fmt.Printf("%-30s | %20s | %20s | %20s |\n", cn, expenseAccount.Amount, envelopeAccount.Amount, amount.DisplayableQuantity(true))
+			fmt.Printf("%-30s | %20s | %20s | %20s |\n", cn, envelopeAccount.Amount, expenseAccount.Amount, amount.DisplayableQuantity(true))
 		}
 
 		fmt.Println()
-- 
2.43.0


From d8537ace63be005506124a16d4dd187bff27ffa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 27/35] fix: budget postings to the bare Expenses account
 without panicking

---
 journal/account.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/journal/account.go b/journal/account.go
index d9d8e20..ab75d10 100644
--- a/journal/account.go
+++ b/journal/account.go
@@ -114,6 +114,11 @@ func newAccountWithChildren(parent *Account, components []string) *Account {
 // FindOrCreateAccount searches the Account's children for one matching the components,
 // creating children as necessary if it does not find matching ones
 func (a *Account) FindOrCreateAccount(components []string) *Account {
+	// Without components there is nothing beneath this account to look for
+	if len(components) == 0 {
+		return a
+	}
+
 	child, remainingComponents := a.findChild(components)
 
 	// If there were no remaining accounts, we found the deepest
-- 
2.43.0


From 828c70ce9886423c1073a9479c722c73c2ee6909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 28/35] fix: set the commodity of the ancestors of nested
 envelopes

---
 journal/budget.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/journal/budget.go b/journal/budget.go
index da2cb3c..36266a3 100644
--- a/journal/budget.go
+++ b/journal/budget.go
@@ -111,6 +111,9 @@ func (b *Budget) AddPosting(p *Posting, pt PostingType) error {
 
 		// Add the posting's amount to the envelope account and all of its ancestors
 		if err := envelopeAccount.WalkAncestors(func(a *Account) error {
+			if a.Amount.Commodity == "" {
+				a.Amount.Commodity = p.Amount.Commodity
+			}
 			if err := a.Amount.Add(*p.Amount); err != nil {
 				return err
 			}
@@ -138,6 +141,9 @@ func (b *Budget) AddPosting(p *Posting, pt PostingType) error {
 
 		// Subtract the postings amount from the expense account and all of its ancestors
 		if err := expenseAccount.WalkAncestors(func(a *Account) error {
+			if a.Amount.Commodity == "" {
+				a.Amount.Commodity = p.Amount.Commodity
+			}
 			if err := a.Amount.Subtract(*p.Amount); err != nil {
 				return err
 			}
-- 
2.43.0


From 68848c6bac7ea166757aaa3f7b3d8a91dfdc7834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:22 +0000
Subject: [PATCH 29/35] fix: do not read the point of an amount as its
 commodity

---
 parser/lexer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 98d9bfc..defcf87 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -324,6 +324,15 @@ func (l *lexer) lexCommodity() []rune {
 			return runes
 		}
 
+		// A point before a number belongs to the amount, unless it ends an abbreviation
+		if r == '.' && (len(runes) == 0 || !unicode.IsLetter(runes[len(runes)-1])) {
+			next := l.input[l.pos:]
+			if len(next) > 0 && (unicode.IsDigit(rune(next[0])) || next[0] == '-' || next[0] == '+') {
+				l.backup()
+				return runes
+			}
+		}
+
 		runes = append(runes, r)
 	}
 }
-- 
2.43.0


From 8b1d4173d9a481369be55af7314bc025d80a2a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 30/35] fix: do not list the root account in an empty flattened
 tree

---
 reporting/flattenedtree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reporting/flattenedtree.go b/reporting/flattenedtree.go
index 807c7b4..f879425 100644
--- a/reporting/flattenedtree.go
+++ b/reporting/flattenedtree.go
@@ -13,6 +13,10 @@ func FlattenedTree(a journal.Account, prepender func(a journal.Account) string)
 	if prepender == nil {
 		prepender = func(a journal.Account) string { return "" }
 	}
+	// As in the tree, only descendents are shown
+	if len(a.Children) == 0 {
+		return ""
+	}
 	return flattenedTree(a, prepender, "")
 }
 
-- 
2.43.0


From c1dc7e4a2937bfe3c12b515e9cd576dd3b34814c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:19 +0000
Subject: [PATCH 31/35] fix: read lines longer than the reader's buffer instead
 of giving up

---
 parser/lexer.go | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index defcf87..ebaa6b3 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -7,7 +7,6 @@ import (
 	"errors"
 	"fmt"
 	"io"
-	"log"
 	"path/filepath"
 	"unicode"
 	"unicode/utf8"
@@ -64,22 +63,43 @@ func newLexer(reader io.Reader, locationHint string, parser itemParser) lexer {
 
 // only used during testing
 func (l *lexer) ingest() error {
-	line, isPrefix, err := l.reader.ReadLine()
+	line, err := l.readLine()
 	if err != nil {
 		return err
 	}
-	if isPrefix {
-		log.Fatalln("Unhandled split line (todo)")
-	}
 	l.input = line
 	return nil
 }
 
 // Lexes the file line by line
+// readLine reads the whole of the next line, which can be longer than the reader's buffer
+func (l *lexer) readLine() ([]byte, error) {
+	line, isPrefix, err := l.reader.ReadLine()
+	if err != nil || !isPrefix {
+		return line, err
+	}
+
+	// Copy because the reader reuses its buffer
+	line = append([]byte{}, line...)
+	for isPrefix {
+		var rest []byte
+		rest, isPrefix, err = l.reader.ReadLine()
+		if err == io.EOF {
+			break
+		}
+		if err != nil {
+			return nil, err
+		}
+		line = append(line, rest...)
+	}
+
+	return line, nil
+}
+
 func (l *lexer) lex() error {
 	l.currentLine = 1
 	for {
-		line, isPrefix, err := l.reader.ReadLine()
+		line, err := l.readLine()
 		if err != nil {
 			if err.Error() == "EOF" {
 				// Let the parser know we have reached the end of the file
@@ -91,9 +111,6 @@ func (l *lexer) lex() error {
 			}
 			return err
 		}
-		if isPrefix {
-			log.Fatalln("Unhandled split line (todo)")
-		}
 
 		// Reset the positions
 		l.pos = 0
-- 
2.43.0


From 6c8647cdb7858455fe26a4daef965702908dd2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:32 +0000
Subject: [PATCH 32/35] fix: reject periods that are not months instead of
 budgeting for year 1

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 34d4a12..1bc435b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -216,7 +216,7 @@ func parsePeriod(content []rune) (journal.Period, error) {
 	// Try to cast to a budget date
 	date, err := time.Parse(budgetDateFormat, s)
 	if err != nil {
-		return p, nil
+		return p, fmt.Errorf("unhandled period: %s", s)
 	}
 
 	p.StartDate = date
-- 
2.43.0


From b722662d42cb3f5278b795ef31493b07b00bba51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:21 +0000
Subject: [PATCH 33/35] fix: list a file that is included by different paths
 once

---
 cmd/stats.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/stats.go b/cmd/stats.go
index 2273ba9..e3b0a3e 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -3,6 +3,7 @@ package cmd
 import (
 	"fmt"
 	"math"
+	"path/filepath"
 	"sort"
 	"strings"
 	"time"
@@ -72,7 +73,7 @@ func (js *statisticsJournal) transactionHandler(t *journal.Transaction, path str
 	}
 
 	// Log the file
-	js.journalFiles[path] = true
+	js.journalFiles[filepath.Clean(path)] = true
 
 	// Increment transaction count
 	js.transactionCount++
-- 
2.43.0


From a0e4f3612387b407d0d3dd7ba20049adbd07d8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:01 +0000
Subject: [PATCH 34/35] fix: do not take an account named like the root for the
 root

---
 journal/account.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/journal/account.go b/journal/account.go
index ab75d10..d92757c 100644
--- a/journal/account.go
+++ b/journal/account.go
@@ -57,7 +57,7 @@ func (a *Account) CreatePath() string {
 	path := a.Name
 	current := a
 	for {
-		if current.Parent == nil || current.Parent.Name == RootID || current.Parent.Name == BudgetRootID {
+		if current.Parent == nil || current.Parent.isRoot() {
 			return path
 		}
 		path = fmt.Sprintf("%s:%s", current.Parent.Name, path)
@@ -69,13 +69,18 @@ func (a *Account) CreatePath() string {
 func (a *Account) Head() *Account {
 	current := a
 	for {
-		if current.Parent == nil || current.Parent.Name == RootID || current.Parent.Name == BudgetRootID {
+		if current.Parent == nil || current.Parent.isRoot() {
 			return current
 		}
 		current = current.Parent
 	}
 }
 
+// isRoot tells roots from accounts which only have the name of one
+func (a *Account) isRoot() bool {
+	return a.Parent == nil && (a.Name == RootID || a.Name == BudgetRootID)
+}
+
 // WalkAncestors calls `action` on this account and all its ancestors
 func (a *Account) WalkAncestors(action func(*Account) error) error {
 	if err := action(a); err != nil {
@@ -98,7 +103,7 @@ func newAccountWithChildren(parent *Account, components []string) *Account {
 		parent.Children[child.Name] = child
 	}
 
-	if parent == nil || parent.Name == RootID || parent.Name == BudgetRootID {
+	if parent == nil || parent.isRoot() {
 		child.PathComponents = []string{components[0]}
 	} else {
 		// Copy so that siblings do not share the parent's spare capacity
-- 
2.43.0


From 1dda27be0aca8a5d940d073496701cf3332ffd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:25 +0000
Subject: [PATCH 35/35] fix: refuse totals that do not fit in 64 bits instead
 of showing wrong ones

---
 cmd/budget.go     | 3 ++-
 cmd/stats.go      | 9 +++++++++
 journal/amount.go | 9 +++++++++
 journal/budget.go | 3 +--
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/cmd/budget.go b/cmd/budget.go
index e2adaf1..057084b 100644
--- a/cmd/budget.go
+++ b/cmd/budget.go
@@ -149,7 +149,8 @@ func (bp *budgetProcessor) report() {
 
 			amount := envelopeAccount.Amount
 			if err := amount.Add(expenseAccount.Amount); err != nil {
-				panic(err)
+				fmt.Println(err)
+				return
 			}
 
 			fmt.Printf("%-30s | %20s | %20s | %20s |\n", cn, envelopeAccount.Amount, expenseAccount.Amount, amount.DisplayableQuantity(true))
diff --git a/cmd/stats.go b/cmd/stats.go
index e3b0a3e..a893f3b 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -1,6 +1,7 @@
 package cmd
 
 import (
+	"errors"
 	"fmt"
 	"math"
 	"path/filepath"
@@ -102,11 +103,19 @@ func (js *statisticsJournal) transactionHandler(t *journal.Transaction, path str
 		components := strings.Split(p.AccountPath, ":")
 
 		if components[0] == journal.IncomeID {
+			previous := js.incomeBuckets[t.Date]
 			js.incomeBuckets[t.Date] -= p.Amount.Quantity
+			if (js.incomeBuckets[t.Date] < previous) != (p.Amount.Quantity > 0) && p.Amount.Quantity != 0 {
+				return errors.New("income is too large to be summed")
+			}
 		}
 
 		if components[0] == journal.ExpensesID {
+			previous := js.expenseBuckets[t.Date]
 			js.expenseBuckets[t.Date] += p.Amount.Quantity
+			if (js.expenseBuckets[t.Date] > previous) != (p.Amount.Quantity > 0) && p.Amount.Quantity != 0 {
+				return errors.New("expenses are too large to be summed")
+			}
 		}
 	}
 
diff --git a/journal/amount.go b/journal/amount.go
index 8f2d06f..2e0992b 100644
--- a/journal/amount.go
+++ b/journal/amount.go
@@ -1,6 +1,7 @@
 package journal
 
 import (
+	"errors"
 	"fmt"
 )
 
@@ -43,7 +44,11 @@ func (a *Amount) Add(other Amount) error {
 		// return errors.New("unhandled addition of unmatched commodities")
 		fmt.Printf("unhandled addition of unmatched commodities: '%s' and '%s'\n", a.Commodity, other.Commodity)
 	}
+	previous := a.Quantity
 	a.Quantity += other.Quantity
+	if (a.Quantity > previous) != (other.Quantity > 0) && other.Quantity != 0 {
+		return errors.New("amounts are too large to be summed")
+	}
 	return nil
 }
 
@@ -53,6 +58,10 @@ func (a *Amount) Subtract(other Amount) error {
 		// return errors.New("unhandled addition of unmatched commodities")
 		fmt.Printf("unhandled subtraction of unmatched commodities: '%s' and '%s'\n", a.Commodity, other.Commodity)
 	}
+	previous := a.Quantity
 	a.Quantity -= other.Quantity
+	if (a.Quantity < previous) != (other.Quantity > 0) && other.Quantity != 0 {
+		return errors.New("amounts are too large to be summed")
+	}
 	return nil
 }
diff --git a/journal/budget.go b/journal/budget.go
index 36266a3..cd0a25a 100644
--- a/journal/budget.go
+++ b/journal/budget.go
@@ -67,8 +67,7 @@ func (b *Budget) AddPosting(p *Posting, pt PostingType) error {
 	// Don't add the BudgetRoot to the budget
 	// Instead, roll it in to the EnvelopeRoot
 	if pt == EnvelopePosting && p.AccountPath == BudgetRootID {
-		bm.EnvelopeRoot.Amount.Add(*p.Amount)
-		return nil
+		return bm.EnvelopeRoot.Amount.Add(*p.Amount)
 	}
 
 	// Choose root
-- 
2.43.0

