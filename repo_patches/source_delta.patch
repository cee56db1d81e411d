From de58575e6f2a64e48e86f4689b841cc32ce00ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 01/39] fix: unexpected token error must not index token table
 with a special token type

---
 parser/parser.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index aa31717..39f7965 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -553,20 +553,28 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 
 func (pc *ParseContext) getExpectedToken(s grammar.State) string {
 	g := pc.parser.grammar
-	index := 0
-	if s.HighRule > s.LowRule {
-		index = g.Rules[s.LowRule].Token
-		if index < 0 && s.HighRule > s.LowRule+1 {
-			index = g.Rules[s.LowRule+1].Token
+	index := grammar.AnyToken
+	for _, r := range g.Rules[s.LowRule:s.HighRule] {
+		if r.Token != grammar.AnyToken {
+			index = r.Token
+			if index >= 0 {
+				break
+			}
 		}
 	}
-	if s.HighMultiRule > s.LowMultiRule {
-		i := g.MultiRules[s.LowMultiRule].Token
-		if i < index {
-			index = i
+	for _, mr := range g.MultiRules[s.LowMultiRule:s.HighMultiRule] {
+		if mr.Token >= 0 && (index < 0 || mr.Token < index) {
+			index = mr.Token
+			break
 		}
 	}
 
+	if index == lexer.EoiTokenType {
+		return "end of input"
+	} else if index < 0 {
+		return "any token"
+	}
+
 	token := g.Tokens[index]
 	if (token.Flags & grammar.LiteralToken) != 0 {
 		return token.Name
-- 
2.43.0


From 4596fcdec9978d6b762a99e637605dbe8c90170e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 02/39] fix: NextOf must return EoF and EoI tokens no matter
 which types are requested

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 3d954ae..4a11240 100755
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -159,7 +159,7 @@ func (l *Lexer) Next(q *source.Queue) (*Token, error) {
 // Returns EoI token if queue is empty.
 // Returns EoF token and discards current source if current position is beyond the end of current source.
 func (l *Lexer) NextOf(q *source.Queue, tts TokenTypeSet) (*Token, error) {
-	if tts&l.typeMask == 0 {
+	if tts&l.typeMask == 0 && !q.Eof() {
 		return nil, nil
 	}
 
-- 
2.43.0


From 40dd30e638ba5d29b820cdd3c1a0eac418018750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 03/39] fix: fetching any token must return either a token or
 an error

---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 39f7965..007fe77 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -831,6 +831,11 @@ func (pc *ParseContext) fetchToken(types grammar.BitSet) (*Token, error) {
 	}
 
 	if types == lexer.AllTokenTypes {
+		if firstError == nil {
+			// none of lexers defines any token type, the current position contains a wrong char
+			return pc.parser.lexers[0].Next(pc.sources)
+		}
+
 		return nil, firstError
 	}
 
-- 
2.43.0


From 7679dcf117ecc2426f7d9fc02c483ce4e8e3c7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 04/39] fix: report incorrect regular expression instead of
 panicking when assigning token groups

---
 langdef/errors.go | 4 ++++
 langdef/parser.go | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/langdef/errors.go b/langdef/errors.go
index 10bc3f7..d825b73 100755
--- a/langdef/errors.go
+++ b/langdef/errors.go
@@ -81,6 +81,10 @@ func regexpError(token *lexer.Token, e error) *llx.Error {
 	return llx.FormatErrorPos(token, WrongRegexpError, "incorrect RegExp %s (%s)", token.Text(), e.Error())
 }
 
+func wrongRegexpError(name string, e error) *llx.Error {
+	return llx.FormatError(WrongRegexpError, "incorrect RegExp for token %q (%s)", name, e.Error())
+}
+
 func unknownNodeError(names []string) *llx.Error {
 	return llx.FormatError(UnknownNodeError, "undefined nodes: "+strings.Join(names, ", "))
 }
diff --git a/langdef/parser.go b/langdef/parser.go
index b9444ea..de3fe5d 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -1071,7 +1071,12 @@ func assignTokenGroups(g *parseResult, e error) error {
 		}
 
 		if (t.Flags & grammar.NoLiteralsToken) == 0 {
-			res[rcnt] = regexp.MustCompile(`(?s:` + t.Re + `)`)
+			re, e := regexp.Compile(`(?s:` + t.Re + `)`)
+			if e != nil {
+				return wrongRegexpError(t.Name, e)
+			}
+
+			res[rcnt] = re
 		}
 	}
 	rts := ts[:rcnt]
-- 
2.43.0


From 88f18896fce45ea02856fc73e9256667557db39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 05/39] fix: do not overwrite pending parsing branches while
 resolving a conflict

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 007fe77..dd2ea2b 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -951,7 +951,7 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 
 	for {
 		branches = nextBranches
-		nextBranches = nextBranches[:0]
+		nextBranches = nil
 		tokens = append(tokens, tok)
 		lastSuccess = nil
 
-- 
2.43.0


From 452e15e616ce54ae6e63d89597340df7bb46b394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 06/39] fix: grammar states must not share rule slices

---
 langdef/result.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/langdef/result.go b/langdef/result.go
index 6158acb..75ebb14 100644
--- a/langdef/result.go
+++ b/langdef/result.go
@@ -118,7 +118,7 @@ func (se *stateEntry) CopyRules(from *stateEntry) {
 		if k >= 0 {
 			se.Rules[k] = append(se.Rules[k], rs...)
 		} else {
-			se.Rules[k] = rs
+			se.Rules[k] = append([]grammar.Rule{}, rs...)
 		}
 	}
 }
-- 
2.43.0


From e463b62d54e53d568c6731e710167541cb59eec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 07/39] fix: keep all flags of a literal listed in several
 directives

---
 langdef/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index de3fe5d..9dec27a 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -460,8 +460,10 @@ func (c *parseContext) addToken(name, re string, flags grammar.TokenFlags) int {
 }
 
 func (c *parseContext) addLiteralToken(name string, flags grammar.TokenFlags) {
-	_, has := c.literalIndex[name]
-	if !has {
+	i, has := c.literalIndex[name]
+	if has {
+		c.literals[i].flags |= flags
+	} else {
 		c.literalIndex[name] = len(c.literals)
 		c.literals = append(c.literals, literalToken{name, flags})
 	}
-- 
2.43.0


From a438b205fc5c45c6c27ebbef0e6cf4ef9e42ea5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:29 +0000
Subject: [PATCH 08/39] fix: reject moving not yet defined token to another
 group again

---
 langdef/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/langdef/parser.go b/langdef/parser.go
index 9dec27a..6eebe0f 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -565,6 +565,10 @@ func (c *parseContext) parseGroupDir() error {
 			c.result.Tokens[i].Group = c.currentGroup
 		} else {
 			i = c.addExtraToken(name)
+			if c.extraTokens[i].group != 0 {
+				return reassignedGroupError(name)
+			}
+
 			c.extraTokens[i].group = c.currentGroup
 		}
 	}
-- 
2.43.0


From 7b715750f9768e1efcb22eb5f1dee33767a27d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 09/39] fix: do not ignore incorrect first argument of a layer
 command

---
 langdef/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 6eebe0f..290305e 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -638,7 +638,11 @@ func (c *parseContext) parseLayerDef(t *lexer.Token) error {
 			return e
 		}
 
-		token, _ = c.fetchOne(rBraceTok, false, e)
+		token, e = c.fetchOne(rBraceTok, false, nil)
+		if e != nil {
+			return e
+		}
+
 		if token != nil {
 			layer.Commands = append(layer.Commands, command)
 			continue
-- 
2.43.0


From 882b02524e93850f96e86ddbe0d1abf909d48d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 10/39] fix: do not loop forever when a directive is truncated

---
 langdef/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/langdef/parser.go b/langdef/parser.go
index 290305e..e866b2b 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -427,6 +427,11 @@ func (c *parseContext) fetchAll(types []string, e error) ([]*lexer.Token, error)
 			break
 		}
 
+		if isEof(t) {
+			c.put(t)
+			break
+		}
+
 		result = append(result, t)
 	}
 
-- 
2.43.0


From 1f1fcaf775a9f593871d294f4aade6596408dfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 11/39] fix: do not lose an error that occurs while resolving a
 conflict

---
 parser/parser.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index dd2ea2b..68b7298 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -494,7 +494,11 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 		}
 
 		for !tokenConsumed && node != nil {
-			rule, found := pc.nextRule(ctx, tok, gr.States[node.state])
+			rule, found, e := pc.nextRule(ctx, tok, gr.States[node.state])
+			if e != nil {
+				return nil, e
+			}
+
 			if !found {
 				if tok == nil {
 					tok, e = pc.nextToken(ctx, lexer.AllTokenTypes)
@@ -731,7 +735,7 @@ func (pc *ParseContext) pullToken(ctx context.Context, types grammar.BitSet, lay
 	}
 }
 
-func (pc *ParseContext) nextRule(ctx context.Context, t *Token, s grammar.State) (r grammar.Rule, found bool) {
+func (pc *ParseContext) nextRule(ctx context.Context, t *Token, s grammar.State) (r grammar.Rule, found bool, e error) {
 	r, found = pc.appliedRules.First()
 	if found {
 		return
@@ -747,7 +751,11 @@ func (pc *ParseContext) nextRule(ctx context.Context, t *Token, s grammar.State)
 		r = rules[0]
 	} else {
 		//		tokens, rules := pc.resolve(ctx, t, rules)
-		tokens, rules := pc.resolveConflict(ctx, t)
+		tokens, rules, e := pc.resolveConflict(ctx, t)
+		if e != nil {
+			return r, false, e
+		}
+
 		r = rules[0]
 		for i := len(tokens) - 1; i >= 1; i-- {
 			pc.tokens.Prepend(tokens[i])
@@ -927,7 +935,7 @@ func (pc *ParseContext) applyRule(ctx context.Context, tok *lexer.Token, rule gr
 	return tokenConsumed, e
 }
 
-func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Token, []grammar.Rule) {
+func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Token, []grammar.Rule, error) {
 	var tokens []*lexer.Token
 	nextBranches := []*parsingBranch{pc.newParsingBranch()}
 	var branches []*parsingBranch
@@ -998,7 +1006,7 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 		var e error
 		tok, e = pc.nextToken(ctx, types)
 		if e != nil {
-			break
+			return nil, nil, e
 		}
 	}
 
@@ -1010,5 +1018,5 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 		b = lastError
 	}
 
-	return tokens, b.AppliedRules
+	return tokens, b.AppliedRules, nil
 }
-- 
2.43.0


From be7041d7ed3aa1372047d89cee0785771ccd09e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 12/39] fix: error tokens defined in grammar must generate
 lexical errors

---
 parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 68b7298..934b72d 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -86,7 +86,11 @@ func New(g *grammar.Grammar, opts ...Option) (*Parser, error) {
 
 		lr := &lrs[t.Group]
 		pattern := "(" + t.Re + ")"
-		lr.types = append(lr.types, lexer.TokenType{i, t.Name})
+		tt := i
+		if t.Flags&grammar.ErrorToken != 0 {
+			tt = lexer.ErrorTokenType
+		}
+		lr.types = append(lr.types, lexer.TokenType{tt, t.Name})
 		lr.patterns = append(lr.patterns, pattern)
 	}
 
-- 
2.43.0


From 647b1b903afe2e99f7db9dff1b92e626783b70be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 13/39] fix: do not ignore incorrect hooks returned by a hook
 layer

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 934b72d..6e504b1 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -272,7 +272,10 @@ func newParseContext(ctx context.Context, p *Parser, q *source.Queue, hs Hooks)
 
 	for i := len(p.layers) - 1; i >= 0; i-- {
 		hooks := p.layers[i].Init(ctx, result)
-		newHookLayer(p, result, hooks)
+		e = newHookLayer(p, result, hooks)
+		if e != nil {
+			return nil, e
+		}
 	}
 
 	firstToken := lexer.NewToken(grammar.AnyToken, "", nil, q.SourcePos())
-- 
2.43.0


From 7d6905711c1b4c27df7535d164b31a2ee8c6610b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 14/39] fix: add missing layer name to the wrong number of
 arguments message

---
 parser/layers/common/errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/layers/common/errors.go b/parser/layers/common/errors.go
index 62a211c..a1f7d3d 100644
--- a/parser/layers/common/errors.go
+++ b/parser/layers/common/errors.go
@@ -36,7 +36,7 @@ func MakeMissingCommandError(layer, command string) *llx.Error {
 
 func MakeNumberOfArgumentsError(layer, command string, expected, got int) *llx.Error {
 	return llx.FormatError(NumberOfArgumentsError,
-		"wrong number of arguments for %q command for %q layer: expecting %d, got %d", command, expected, got)
+		"wrong number of arguments for %q command for %q layer: expecting %d, got %d", command, layer, expected, got)
 }
 
 func MakeInvalidArgumentError(layer, command, arg, reason string) *llx.Error {
-- 
2.43.0


From 1aa3762dcf388f4b5d45277c553c5aea3566fd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 15/39] fix: EofToken must accept nil source

---
 lexer/token.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lexer/token.go b/lexer/token.go
index 2eb1aea..41f7c77 100755
--- a/lexer/token.go
+++ b/lexer/token.go
@@ -92,7 +92,11 @@ const (
 // EofToken creates a token of EofTokenType.
 // s may be nil.
 func EofToken(s *source.Source) *Token {
-	return &Token{tokenType: EofTokenType, typeName: EofTokenName, pos: source.NewPos(s, s.Len())}
+	var pos source.Pos
+	if s != nil {
+		pos = source.NewPos(s, s.Len())
+	}
+	return &Token{tokenType: EofTokenType, typeName: EofTokenName, pos: pos}
 }
 
 // EoiToken creates a token of EoiTokenType.
-- 
2.43.0


From ae2d465c5c8b59e79cafefc71ac7f7b96d3d86b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 16/39] fix: skip empty nodes when looking for the next or the
 previous token element

---
 tree/tree.go | 46 ++++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/tree/tree.go b/tree/tree.go
index 3aeeea8..68068b1 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -99,17 +99,24 @@ func NextTokenElement(n Element) Element {
 		return nil
 	}
 
-	nn := n.Next()
-	for nn == nil {
-		n = n.Parent()
-		if n == nil {
-			return nil
+	for {
+		nn := n.Next()
+		for nn == nil {
+			n = n.Parent()
+			if n == nil {
+				return nil
+			}
+
+			nn = n.Next()
 		}
 
-		nn = n.Next()
-	}
+		tok := FirstTokenElement(nn)
+		if tok != nil {
+			return tok
+		}
 
-	return FirstTokenElement(nn)
+		n = nn
+	}
 }
 
 // PrevTokenElement returns the last token element before given one, if there are any.
@@ -119,17 +126,24 @@ func PrevTokenElement(n Element) Element {
 		return nil
 	}
 
-	nn := n.Prev()
-	for nn == nil {
-		n = n.Parent()
-		if n == nil {
-			return nil
+	for {
+		nn := n.Prev()
+		for nn == nil {
+			n = n.Parent()
+			if n == nil {
+				return nil
+			}
+
+			nn = n.Prev()
 		}
 
-		nn = n.Prev()
-	}
+		tok := LastTokenElement(nn)
+		if tok != nil {
+			return tok
+		}
 
-	return LastTokenElement(nn)
+		n = nn
+	}
 }
 
 // Children returns child elements (if there are any) or nil if given element is not a node.
-- 
2.43.0


From 7cff7e427746e6877433a0cb1474cc87057aa399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 17/39] fix: Replace must handle neighbour elements, tree root,
 and replacing element with itself

---
 tree/tree.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tree/tree.go b/tree/tree.go
index 68068b1..47207db 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -180,9 +180,13 @@ func Replace(old, n Element) {
 	}
 
 	pa := old.Parent()
+	if pa == nil || old == n {
+		return
+	}
+
+	Detach(n)
 	ne := old.Next()
 	Detach(old)
-	Detach(n)
 	pa.AddChild(n, ne)
 }
 
-- 
2.43.0


From b0a4df21aa8812bb12f4558f2c0c07844cd9a70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 18/39] fix: an element cannot become its own sibling

---
 tree/tree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree/tree.go b/tree/tree.go
index 47207db..076780c 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -194,7 +194,7 @@ func Replace(old, n Element) {
 // Target becomes new element's previous sibling, target's next sibling (if any) becomes new element's next sibling.
 // Does nothing if either new or target element is nil.
 func AppendSibling(prev, el Element) {
-	if el == nil || prev == nil {
+	if el == nil || prev == nil || el == prev {
 		return
 	}
 
@@ -217,7 +217,7 @@ func AppendSibling(prev, el Element) {
 // Target becomes new element's next sibling, target's previous sibling (if any) becomes new element's previous sibling.
 // Does nothing if either new or target element is nil.
 func PrependSibling(next, el Element) {
-	if el == nil || next == nil {
+	if el == nil || next == nil || el == next {
 		return
 	}
 
-- 
2.43.0


From fe19b4688c453d2abee2598489dd177ad1b7ee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 19/39] fix: do not hold layer registry lock while setting up
 hook layers

---
 parser/hooks.go  | 8 ++++++++
 parser/parser.go | 5 +----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/parser/hooks.go b/parser/hooks.go
index fa65640..c2a3f6d 100644
--- a/parser/hooks.go
+++ b/parser/hooks.go
@@ -205,3 +205,11 @@ func RegisterHookLayer(name string, tpl HookLayerTemplate) error {
 	knownHookLayers[name] = tpl
 	return nil
 }
+
+func registeredHookLayer(name string) (tpl HookLayerTemplate, has bool) {
+	knownHookLayerLock.RLock()
+	defer knownHookLayerLock.RUnlock()
+
+	tpl, has = knownHookLayers[name]
+	return
+}
diff --git a/parser/parser.go b/parser/parser.go
index 6e504b1..06a3852 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -111,14 +111,11 @@ func New(g *grammar.Grammar, opts ...Option) (*Parser, error) {
 	result := &Parser{g, tokenNames, nodeNames, literals, ls, nil}
 
 	if len(g.Layers) != 0 {
-		knownHookLayerLock.RLock()
-		defer knownHookLayerLock.RUnlock()
-
 		result.layers = make([]HookLayer, 0, len(g.Layers))
 		for _, layerDef := range g.Layers {
 			tpl, has := settings.layerTemplates[layerDef.Type]
 			if !has {
-				tpl, has = knownHookLayers[layerDef.Type]
+				tpl, has = registeredHookLayer(layerDef.Type)
 			}
 			if !has {
 				return nil, unknownLayerError(layerDef.Type)
-- 
2.43.0


From 5a0de421aa1e57070452b6225974b71836d5de39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 20/39] fix: list node names in error messages in a stable
 order

---
 langdef/parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index e866b2b..51f9fbd 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -3,6 +3,7 @@ package langdef
 import (
 	"bytes"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 	"unicode/utf8"
@@ -900,6 +901,7 @@ func findUndefinedNodes(nti nodeIndex, e error) error {
 	}
 
 	if len(uns) > 0 {
+		sort.Strings(uns)
 		return unknownNodeError(uns)
 	}
 
@@ -947,7 +949,8 @@ func resolveDependencies(nts []grammar.Node, nti nodeIndex, e error) error {
 	affects := make(map[int][]int)
 	resolveQueue := queue.New[int]()
 
-	for _, item := range nti {
+	for _, nt := range nts {
+		item := nti[nt.Name]
 		if item.DependsOn.IsEmpty() {
 			resolveQueue.Append(item.Index)
 			item.FirstTokens = item.Chunk.FirstTokens()
@@ -980,7 +983,8 @@ func resolveDependencies(nts []grammar.Node, nti nodeIndex, e error) error {
 		}
 	}
 
-	for _, item := range nti {
+	for _, nt := range nts {
+		item := nti[nt.Name]
 		if !item.DependsOn.IsEmpty() {
 			resolveQueue.Append(item.Index)
 		}
-- 
2.43.0


From 0fe24bb6440dc7ef49c07aac017d5f028b19f314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 21/39] fix: indent layer must not overwrite source content

---
 parser/layers/indent/indent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/layers/indent/indent.go b/parser/layers/indent/indent.go
index aad3122..b5a1b18 100644
--- a/parser/layers/indent/indent.go
+++ b/parser/layers/indent/indent.go
@@ -285,7 +285,7 @@ func (ls *layerState) adjustIndent(content []byte) state {
 	} else { // fetching multiple space tokens in a row, just in case...
 		tmp := make([]byte, len(ls.currentIndent), len(ls.currentIndent)+len(content))
 		copy(tmp, ls.currentIndent) // avoid spoiling source file
-		ls.currentIndent = append(ls.currentIndent, content...)
+		ls.currentIndent = append(tmp, content...)
 	}
 
 	currentLen := len(ls.currentIndent)
-- 
2.43.0


From 4d8e19eb8edd8b7dad6206aa2c82caa14813d666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 22/39] fix: indent layer must not accept special tokens as
 spaces

---
 parser/layers/indent/indent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/layers/indent/indent.go b/parser/layers/indent/indent.go
index b5a1b18..9cbfa98 100644
--- a/parser/layers/indent/indent.go
+++ b/parser/layers/indent/indent.go
@@ -393,7 +393,7 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 
 			for _, ttn := range command.Arguments {
 				tt, valid := p.TokenType(ttn)
-				if !valid {
+				if !valid || tt < 0 {
 					return nil, common.MakeUnknownTokenTypeError(layerName, command.Command, ttn)
 				}
 
-- 
2.43.0


From 9e7d3a3df1fdc2926d712d3aa85076f50e440ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 23/39] fix: indent layer must reject unknown commands

---
 parser/layers/indent/indent.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/layers/indent/indent.go b/parser/layers/indent/indent.go
index 9cbfa98..4257018 100644
--- a/parser/layers/indent/indent.go
+++ b/parser/layers/indent/indent.go
@@ -425,6 +425,9 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 			if prevType != "" {
 				return nil, common.MakeCommandAlreadyUsedError(layerName, command.Command)
 			}
+
+		default:
+			return nil, common.MakeUnknownCommandError(layerName, command.Command)
 		}
 	}
 
-- 
2.43.0


From 105b7bf57e1fd8cae38e256d3c612e7ecc5cf9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 24/39] fix: indent layer must not accept repeated space
 command

---
 parser/layers/indent/indent.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/layers/indent/indent.go b/parser/layers/indent/indent.go
index 4257018..1c63a2e 100644
--- a/parser/layers/indent/indent.go
+++ b/parser/layers/indent/indent.go
@@ -386,6 +386,10 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 		switch command.Command {
 
 		case spaceCommand:
+			if gotSpaces {
+				return nil, common.MakeCommandAlreadyUsedError(layerName, command.Command)
+			}
+
 			gotSpaces = true
 			if len(command.Arguments) == 0 {
 				return nil, common.MakeNumberOfArgumentsError(layerName, command.Command, 1, 0)
-- 
2.43.0


From 6cc4b37813e8e493b3f97060b5202df919ac1889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 25/39] fix: indent layer must close each indentation only once

---
 parser/layers/indent/indent.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/layers/indent/indent.go b/parser/layers/indent/indent.go
index 1c63a2e..2d3db9f 100644
--- a/parser/layers/indent/indent.go
+++ b/parser/layers/indent/indent.go
@@ -339,6 +339,8 @@ func (ls *layerState) handleEoi(tok *parser.Token) ([]*parser.Token, error) {
 
 			result = append(result, dedent)
 		}
+		ls.indentStack = nil
+		ls.validIndent = nil
 	}
 
 	result = append(result, ls.pad()...)
-- 
2.43.0


From 9d40273298fefbf712336ce6dcf3ea124103c400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 26/39] fix: llxgen must generate valid Go source for grammars
 with layers

---
 cmd/llxgen/llxgen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/llxgen/llxgen.go b/cmd/llxgen/llxgen.go
index 64aa7ca..e96b6c3 100755
--- a/cmd/llxgen/llxgen.go
+++ b/cmd/llxgen/llxgen.go
@@ -126,7 +126,7 @@ func makeGo(gr *grammar.Grammar) ([]byte, error) {
 	buffer.WriteString("\t},\n")
 
 	if len(gr.Layers) != 0 {
-		buffer.WriteString("\tLayers: []grammar.Layer{\n}")
+		buffer.WriteString("\tLayers: []grammar.Layer{\n")
 		for _, layer := range gr.Layers {
 			buffer.WriteString(fmt.Sprintf("\t\t{Type: %q", layer.Type))
 			if len(layer.Commands) == 0 {
@@ -140,6 +140,7 @@ func makeGo(gr *grammar.Grammar) ([]byte, error) {
 						for _, arg := range command.Arguments[1:] {
 							buffer.WriteString(fmt.Sprintf(", %q", arg))
 						}
+						buffer.WriteString("}")
 					}
 					buffer.WriteString("},\n")
 				}
-- 
2.43.0


From 0fa1276306e36ba53c7e5d630de5795ac7013d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 27/39] fix: llxgen must report the invalid variable name
 itself

---
 cmd/llxgen/llxgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/llxgen/llxgen.go b/cmd/llxgen/llxgen.go
index e96b6c3..cadc060 100755
--- a/cmd/llxgen/llxgen.go
+++ b/cmd/llxgen/llxgen.go
@@ -109,7 +109,7 @@ func makeGo(gr *grammar.Grammar) ([]byte, error) {
 		return nil, fmt.Errorf("invalid package name: %s", packageName)
 	}
 	if !re.MatchString(varName) {
-		return nil, fmt.Errorf("invalid variable name: %s", packageName)
+		return nil, fmt.Errorf("invalid variable name: %s", varName)
 	}
 
 	var buffer bytes.Buffer
-- 
2.43.0


From cef71ac7d33502d35d1ba3711d14b769c5342ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 28/39] fix: check context each time a token is fetched

---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 06a3852..91e6496 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -685,6 +685,11 @@ func (pc *ParseContext) nextToken(ctx context.Context, types grammar.BitSet) (*T
 	}
 
 	for {
+		e := ctx.Err()
+		if e != nil {
+			return nil, e
+		}
+
 		tok, e := pc.pullToken(ctx, types, 0)
 		if e != nil {
 			return nil, e
-- 
2.43.0


From 65fedd7b978589b9b45f2a14228339a97505e982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 29/39] fix: token hooks must not emit literals and error
 tokens

---
 parser/parser.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 91e6496..b6a58fa 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -197,6 +197,15 @@ func (p *Parser) IsValidType(tt int) bool {
 	return tt >= lexer.LowestTokenType && tt < len(p.grammar.Tokens) && tt != grammar.AnyToken
 }
 
+// canEmitType returns true if a token of given type can be emitted by token hook.
+func (p *Parser) canEmitType(tt int) bool {
+	if !p.IsValidType(tt) {
+		return false
+	}
+
+	return tt < 0 || p.grammar.Tokens[tt].Flags&(grammar.LiteralToken|grammar.ErrorToken) == 0
+}
+
 // TokenType returns token type for given type name and true if given argument is a valid token type name.
 // Returns false if type name is unknown to parser.
 func (p *Parser) TokenType(typeName string) (tokenType int, valid bool) {
@@ -727,7 +736,7 @@ func (pc *ParseContext) pullToken(ctx context.Context, types grammar.BitSet, lay
 		}
 
 		for _, tok := range extra {
-			if !pc.parser.IsValidType(tok.Type()) {
+			if !pc.parser.canEmitType(tok.Type()) {
 				return nil, emitWrongTokenError(tok)
 			}
 			queue.Append(tok)
-- 
2.43.0


From 16f38ec21800ad7c486ae81fdd04866f80ee73b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 30/39] fix: hook layer nodes must receive results of closest
 nested nodes hooked by the same layer

---
 parser/parser.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index b6a58fa..a5baf96 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -272,10 +272,6 @@ func newParseContext(ctx context.Context, p *Parser, q *source.Queue, hs Hooks)
 		return nil, e
 	}
 
-	if result.watchNodes && result.nodeHooks[0][0] == nil {
-		result.nodeHooks[0][0] = defaultNodeHook
-	}
-
 	for i := len(p.layers) - 1; i >= 0; i-- {
 		hooks := p.layers[i].Init(ctx, result)
 		e = newHookLayer(p, result, hooks)
@@ -344,6 +340,9 @@ func newHookLayer(p *Parser, pc *ParseContext, hs Hooks) error {
 
 			nodeHooks[i+nodeHooksOffset] = nth
 		}
+		if nodeHooks[anyOffset+nodeHooksOffset] == nil {
+			nodeHooks[anyOffset+nodeHooksOffset] = defaultNodeHook
+		}
 		pc.nodeHooks = append(pc.nodeHooks, nodeHooks)
 	}
 
-- 
2.43.0


From ebd535daaf6f716b52b8baf3e00ed1032a949c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 31/39] fix: convert layer must not convert tokens to special
 ones

---
 parser/layers/convert/convert.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/layers/convert/convert.go b/parser/layers/convert/convert.go
index df403f7..bf267ac 100644
--- a/parser/layers/convert/convert.go
+++ b/parser/layers/convert/convert.go
@@ -88,8 +88,8 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 				return nil, common.MakeNumberOfArgumentsError(layerName, command.Command, 1, len(command.Arguments))
 			}
 
-			_, valid := p.TokenType(command.Arguments[0])
-			if !valid {
+			tt, valid := p.TokenType(command.Arguments[0])
+			if !valid || (tt < 0 && command.Command == outputTypeCommand) {
 				return nil, common.MakeUnknownTokenTypeError(layerName, command.Command, command.Arguments[0])
 			}
 
-- 
2.43.0


From 71440e15a1f2133f6b58419474c426603e71d61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 32/39] fix: convert layer must not accept arguments for
 save-position command

---
 parser/layers/convert/convert.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/layers/convert/convert.go b/parser/layers/convert/convert.go
index bf267ac..d1ef741 100644
--- a/parser/layers/convert/convert.go
+++ b/parser/layers/convert/convert.go
@@ -125,6 +125,10 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 			}
 
 		case savePositionCommand:
+			if len(command.Arguments) != 0 {
+				return nil, common.MakeNumberOfArgumentsError(layerName, command.Command, 0, len(command.Arguments))
+			}
+
 			savePosition = true
 
 		default:
-- 
2.43.0


From 0fc64036898c86ce5a8f5d3331ad7349bb339939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 33/39] fix: lexer must not change queue position when it
 cannot fetch a token

---
 lexer/lexer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 4a11240..5e93f0b 100755
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -145,8 +145,12 @@ func (l *Lexer) fetch(q *source.Queue, tSet TokenTypeSet) (*Token, bool, error)
 // Returns EoI token if queue is empty.
 // Returns EoF token and discards current source if current position is beyond the end of current source.
 func (l *Lexer) Next(q *source.Queue) (*Token, error) {
+	pos := q.Pos()
 	for {
 		t, _, e := l.fetch(q, AllTokenTypes)
+		if e != nil {
+			q.Seek(pos)
+		}
 		if t != nil || e != nil {
 			return t, e
 		}
@@ -163,8 +167,12 @@ func (l *Lexer) NextOf(q *source.Queue, tts TokenTypeSet) (*Token, error) {
 		return nil, nil
 	}
 
+	pos := q.Pos()
 	for {
 		t, advanced, e := l.fetch(q, tts)
+		if e != nil || (t == nil && !advanced) {
+			q.Seek(pos)
+		}
 		if t != nil || e != nil || !advanced {
 			return t, e
 		}
-- 
2.43.0


From 378310dfc22bf9c282272e27c7e9b7c40010a45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 34/39] fix: count each token type once when checking the
 number of token types

---
 langdef/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 51f9fbd..816fbc4 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -240,7 +240,7 @@ func (c *parseContext) Parse(s *source.Source) (*parseResult, error) {
 		return nil, e
 	}
 
-	if len(c.result.Tokens)+len(c.extraTokens) >= grammar.MaxTokenType {
+	if len(c.result.Tokens)+len(c.extraIndex) >= grammar.MaxTokenType {
 		return nil, tokenTypeNumberError(t)
 	}
 
-- 
2.43.0


From 65d10142d979cf5c1fccdce01b34327c591d3a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 35/39] fix: report the same unknown hook key every time when
 there are several of them

---
 parser/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index a5baf96..0239d32 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"maps"
 	"regexp"
+	"slices"
 	"sort"
 	"strings"
 
@@ -289,7 +290,7 @@ func newHookLayer(p *Parser, pc *ParseContext, hs Hooks) error {
 	if len(hs.Tokens)+len(hs.Literals) > 0 {
 		maxTokenType := 0
 
-		for k := range hs.Tokens {
+		for _, k := range slices.Sorted(maps.Keys(hs.Tokens)) {
 			i, f := p.tokenNames[k]
 			if !f {
 				return unknownTokenTypeError(k)
@@ -332,13 +333,13 @@ func newHookLayer(p *Parser, pc *ParseContext, hs Hooks) error {
 
 	if len(hs.Nodes) > 0 {
 		nodeHooks := make([]NodeHook, len(p.grammar.Nodes)+nodeHooksOffset)
-		for k, nth := range hs.Nodes {
+		for _, k := range slices.Sorted(maps.Keys(hs.Nodes)) {
 			i, f := p.nodeNames[k]
 			if !f {
 				return unknownNodeError(k)
 			}
 
-			nodeHooks[i+nodeHooksOffset] = nth
+			nodeHooks[i+nodeHooksOffset] = hs.Nodes[k]
 		}
 		if nodeHooks[anyOffset+nodeHooksOffset] == nil {
 			nodeHooks[anyOffset+nodeHooksOffset] = defaultNodeHook
-- 
2.43.0


From 04855c8dcbde94aac25a8acd87ab54678debe3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:03 +0000
Subject: [PATCH 36/39] fix: do not replay absence of a token expected by
 discarded parsing branches

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0239d32..822af7a 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -978,7 +978,10 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 	for {
 		branches = nextBranches
 		nextBranches = nil
-		tokens = append(tokens, tok)
+		// nil means that there is no token these branches expect; the parser may expect another one here
+		if tok != nil || len(tokens) == 0 {
+			tokens = append(tokens, tok)
+		}
 		lastSuccess = nil
 
 		for _, b = range branches {
-- 
2.43.0


From 3b69116663b8df43c1f1b3425f612a15953954de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:12 +0000
Subject: [PATCH 37/39] fix: return all tokens fetched beyond the root node to
 the source queue

---
 parser/parser.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 822af7a..5c7ec3b 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -537,17 +537,16 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 		}
 	}
 
-	if !tokenConsumed && tok.Type() != lexer.EoiTokenType {
-		s := tok.Source()
-		if s != nil {
-			if s != pc.sources.Source() {
-				pc.sources.Prepend(s)
-			}
-			pc.sources.Seek(tok.Pos().Pos())
-		}
+	if !tokenConsumed {
+		pc.tokens.Prepend(tok)
+	}
+
+	if !pc.fullSource {
+		pc.returnTokens()
+		return pc.lastResult, nil
 	}
 
-	if pc.fullSource && (tok == nil || tok.Type() != lexer.EoiTokenType) {
+	if !tokenConsumed || tok == nil || tok.Type() != lexer.EoiTokenType {
 		for {
 			tok, e = pc.nextToken(ctx, lexer.AllTokenTypes)
 			if e != nil {
@@ -568,6 +567,20 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 	return pc.lastResult, nil
 }
 
+// returnTokens returns fetched tokens which do not belong to the root node to the source queue.
+func (pc *ParseContext) returnTokens() {
+	tokens := pc.tokens.Items()
+	for i := len(tokens) - 1; i >= 0; i-- {
+		s := tokens[i].Source()
+		if s != nil {
+			if s != pc.sources.Source() {
+				pc.sources.Prepend(s)
+			}
+			pc.sources.Seek(tokens[i].Pos().Pos())
+		}
+	}
+}
+
 func (pc *ParseContext) getExpectedToken(s grammar.State) string {
 	g := pc.parser.grammar
 	index := grammar.AnyToken
-- 
2.43.0


From cb612cf72b8e154542c684a01754fd7e6cb8035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:54 +0000
Subject: [PATCH 38/39] fix: side tokens must not affect resolving of conflicts

---
 parser/parser.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 5c7ec3b..d715532 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -767,9 +767,11 @@ func (pc *ParseContext) pullToken(ctx context.Context, types grammar.BitSet, lay
 }
 
 func (pc *ParseContext) nextRule(ctx context.Context, t *Token, s grammar.State) (r grammar.Rule, found bool, e error) {
-	r, found = pc.appliedRules.First()
-	if found {
-		return
+	if !pc.isSideToken(t) {
+		r, found = pc.appliedRules.First()
+		if found {
+			return
+		}
 	}
 
 	rules := pc.findRules(t, s)
@@ -1037,10 +1039,19 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 			break
 		}
 
-		var e error
-		tok, e = pc.nextToken(ctx, types)
-		if e != nil {
-			return nil, nil, e
+		for {
+			var e error
+			tok, e = pc.nextToken(ctx, types)
+			if e != nil {
+				return nil, nil, e
+			}
+
+			if !pc.isSideToken(tok) {
+				break
+			}
+
+			// side tokens do not affect branches
+			tokens = append(tokens, tok)
 		}
 	}
 
-- 
2.43.0


From 8286772bedd9879b3886f947dcf2c2f06c143493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:20 +0000
Subject: [PATCH 39/39] fix: a repeated group of optional items must not lead
 to a state looping forever on unexpected token

---
 langdef/chunks.go | 3 +++
 langdef/result.go | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/langdef/chunks.go b/langdef/chunks.go
index f660d21..7db7ad9 100755
--- a/langdef/chunks.go
+++ b/langdef/chunks.go
@@ -113,6 +113,9 @@ func (c *groupChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) {
 	if needExtraRule {
 		g.States[stateIndex].CopyRules(g.States[states[0]])
 	}
+	if c.isRepeated {
+		g.States[stateIndex].DropBypassRule(stateIndex)
+	}
 }
 
 type eoiChunk struct{}
diff --git a/langdef/result.go b/langdef/result.go
index 75ebb14..339c4f4 100644
--- a/langdef/result.go
+++ b/langdef/result.go
@@ -113,6 +113,14 @@ func (se *stateEntry) BypassRule(nextState int) {
 	se.AddRule(nextState, grammar.SameNode, grammar.AnyToken)
 }
 
+// DropBypassRule removes the rule leading to given state without consuming a token.
+func (se *stateEntry) DropBypassRule(nextState int) {
+	rules := se.Rules[grammar.AnyToken]
+	if len(rules) != 0 && rules[0].State == nextState {
+		delete(se.Rules, grammar.AnyToken)
+	}
+}
+
 func (se *stateEntry) CopyRules(from *stateEntry) {
 	for k, rs := range from.Rules {
 		if k >= 0 {
-- 
2.43.0

