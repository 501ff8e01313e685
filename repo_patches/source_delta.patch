From a830639648005b66df7d960de18ce3244f1311c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:05 +0000
Subject: [PATCH 01/53] fix: order children by the arc that leads to them

A concept first met as the source of an arc kept order zero when it later
became a child, so it was listed before siblings with lower orders.
---
 internal/graph/graph.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/internal/graph/graph.go b/internal/graph/graph.go
index d140e1b..8621d7c 100644
--- a/internal/graph/graph.go
+++ b/internal/graph/graph.go
@@ -1,9 +1,38 @@
 package graph
 
 import (
+	"sort"
+
 	myarcs "github.com/joshuanario/arcs"
 )
 
 func Tree(arcs []myarcs.Arc, arcrole string) *myarcs.RArc {
-	return myarcs.NewRArc(arcs, arcrole)
+	root := myarcs.NewRArc(arcs, arcrole)
+	orders := make(map[string]map[string]float64)
+	for _, arc := range arcs {
+		if arc.Arcrole != arcrole {
+			continue
+		}
+		if _, found := orders[arc.From]; !found {
+			orders[arc.From] = make(map[string]float64)
+		}
+		orders[arc.From][arc.To] = arc.Order
+	}
+	for _, child := range root.Children {
+		applyOrders(child, orders)
+	}
+	return root
+}
+
+// applyOrders sorts the children of every node by the order of the arc that
+// leads to them. A node that is first seen as the source of an arc has no order
+// of its own until then.
+func applyOrders(node *myarcs.RArc, orders map[string]map[string]float64) {
+	for _, child := range node.Children {
+		child.Order = orders[node.Locator][child.Locator]
+		applyOrders(child, orders)
+	}
+	sort.SliceStable(node.Children, func(i, j int) bool {
+		return node.Children[i].Order < node.Children[j].Order
+	})
 }
-- 
2.43.0


From 7b4f710e378777dd12620853bff0b8482fc300c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:52 +0000
Subject: [PATCH 02/53] fix: label the rows of every typed dimension with that
 dimension

The row builder kept the first typed dimension it met. Rows of all
further typed dimensions were labelled with the first one and their
values were lost.
---
 pkg/renderables/contextualQuadrant.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderables/contextualQuadrant.go b/pkg/renderables/contextualQuadrant.go
index 1d3fead..a5b02a2 100644
--- a/pkg/renderables/contextualQuadrant.go
+++ b/pkg/renderables/contextualQuadrant.go
@@ -173,7 +173,7 @@ func getVoidQuadrant(relevantContexts []relevantContext, segmentTypedDomainTrees
 	var dimension *Dimension
 	var makeIndents func(node *myarcs.RArc, level int, isParenthesized bool)
 	makeIndents = func(node *myarcs.RArc, level int, isParenthesized bool) {
-		if dimension == nil && node.Locator != "" {
+		if (level == 1 || dimension == nil) && node.Locator != "" {
 			mappedDimension, ok := allDimensionMap[node.Locator]
 			if !ok {
 				ret = VoidQuadrant{}
-- 
2.43.0


From e0d308b153f7a8da24e02b76754a9e263b3e48b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:09 +0000
Subject: [PATCH 03/53] fix: resolve the end of an arc in the link that holds
 the arc

Arcs with a target role had their end looked up among the locators of
the target network. The view showed a dangling or a wrong concept.
---
 pkg/renderables/dimensionRelationshipSet.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pkg/renderables/dimensionRelationshipSet.go b/pkg/renderables/dimensionRelationshipSet.go
index 2b0883c..37e5513 100644
--- a/pkg/renderables/dimensionRelationshipSet.go
+++ b/pkg/renderables/dimensionRelationshipSet.go
@@ -65,12 +65,7 @@ func getDRS(schemedEntity string, linkroleURI string, h *hydratables.Hydratable)
 			if definitionLink.Role == linkroleURI {
 				arcs := definitionLink.DefinitionArcs
 				for _, arc := range arcs {
-					var to string
-					if arc.TargetRole != "" {
-						to = mapDLocatorToHref(arc.TargetRole, &definition, arc.To)
-					} else {
-						to = mapDLocatorToHref(linkroleURI, &definition, arc.To)
-					}
+					to := mapDLocatorToHref(linkroleURI, &definition, arc.To)
 					hrefs[to]++
 					from := mapDLocatorToHref(linkroleURI, &definition, arc.From)
 					hrefs[from]++
-- 
2.43.0


From 37358a5b1d5876ed7cddeb1bddadb7c650a623ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:16 +0000
Subject: [PATCH 04/53] fix: do not show dimension-domain arcs as dimension
 defaults

Both kinds of arcs were marked as default, so they could not be told
apart.
---
 pkg/renderables/dimensionRelationshipSet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderables/dimensionRelationshipSet.go b/pkg/renderables/dimensionRelationshipSet.go
index 37e5513..da42287 100644
--- a/pkg/renderables/dimensionRelationshipSet.go
+++ b/pkg/renderables/dimensionRelationshipSet.go
@@ -98,7 +98,7 @@ func getDRS(schemedEntity string, linkroleURI string, h *hydratables.Hydratable)
 					case attr.DimensionDomainArcrole:
 						dd = &DimensionDomainConnection{
 							Order:    order,
-							Default:  true,
+							Default:  false,
 							Usable:   arc.Usable,
 							External: arc.TargetRole,
 						}
-- 
2.43.0


From 2b3a390a65ddfd702c4e43cda9ebb8409e3c5365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:23 +0000
Subject: [PATCH 05/53] fix: read the closed and usable attributes of
 definition arcs

A readable value was replaced by the default and an unreadable one was
kept. Arcs without a usable attribute were taken as not usable.
---
 pkg/hydratables/definitionLinkbase.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/hydratables/definitionLinkbase.go b/pkg/hydratables/definitionLinkbase.go
index ac40a31..27b1b76 100644
--- a/pkg/hydratables/definitionLinkbase.go
+++ b/pkg/hydratables/definitionLinkbase.go
@@ -138,15 +138,16 @@ func hydrateDefinitionLink(linkbaseFile *serializables.DefinitionLinkbaseFile) [
 			closedAttr := attr.FindAttr(arc.XMLAttrs, "closed")
 			if closedAttr != nil {
 				closed, err := strconv.ParseBool(closedAttr.Value)
-				if err == nil {
+				if err != nil {
 					closed = false
 				}
 				newArc.Closed = closed
 			}
+			newArc.Usable = true
 			usableAttr := attr.FindAttr(arc.XMLAttrs, "usable")
 			if usableAttr != nil {
 				usable, err := strconv.ParseBool(usableAttr.Value)
-				if err == nil {
+				if err != nil {
 					usable = true
 				}
 				newArc.Usable = usable
-- 
2.43.0


From 2db72b5a27ae19a2e8135c4dab49391833471934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:52 +0000
Subject: [PATCH 06/53] fix: take effective dimensions from the linkbase that
 holds them

The dimensions of a network were looked up in every definition
linkbase. Each further linkbase added a phantom dimension.
---
 pkg/renderables/effectiveDomainGrid.go | 33 +++++++++++++-------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/pkg/renderables/effectiveDomainGrid.go b/pkg/renderables/effectiveDomainGrid.go
index e363f7b..4c07b4a 100644
--- a/pkg/renderables/effectiveDomainGrid.go
+++ b/pkg/renderables/effectiveDomainGrid.go
@@ -97,7 +97,7 @@ func getRootDomains(schemedEntity string, linkroleURI string, h *hydratables.Hyd
 				}
 				dArcs := dArcs(arcs)
 				domainMemberNetwork := graph.Tree(dArcs, attr.DomainMemberArcrole)
-				effectiveDimensions, effectiveDimensionHrefs, edLabelRoles, edLangs := getEffectiveDimensions(linkroleURI, arcs, h)
+				effectiveDimensions, effectiveDimensionHrefs, edLabelRoles, edLangs := getEffectiveDimensions(linkroleURI, arcs, &definition, h)
 				labelRoles = append(labelRoles, edLabelRoles...)
 				langs = append(langs, edLangs...)
 				dimensionDomainNetwork := graph.Tree(dArcs, attr.DimensionDomainArcrole)
@@ -157,27 +157,26 @@ func getRootDomains(schemedEntity string, linkroleURI string, h *hydratables.Hyd
 }
 
 func getEffectiveDimensions(linkroleURI string,
-	arcs []hydratables.DefinitionArc, h *hydratables.Hydratable) ([]EffectiveDimension, []string, []LabelRole, []Lang) {
+	arcs []hydratables.DefinitionArc, definition *hydratables.DefinitionLinkbase,
+	h *hydratables.Hydratable) ([]EffectiveDimension, []string, []LabelRole, []Lang) {
 	labelPacks := []LabelPack{}
 	effectiveDimensionMap := make(map[string]bool)
 	effectiveDimensions := make([]EffectiveDimension, 0, len(arcs))
 	effectiveDimensionHrefs := make([]string, 0, len(arcs))
-	for _, definition := range h.DefinitionLinkbases {
-		for _, arc := range arcs {
-			if arc.Arcrole == attr.HypercubeDimensionArcrole {
-				dim := mapDLocatorToHref(linkroleURI, &definition, arc.To)
-				if effectiveDimensionMap[dim] {
-					continue
-				}
-				effectiveDimensionMap[dim] = true
-				effectiveDimensionHrefs = append(effectiveDimensionHrefs, dim)
-				dimLabelPack := GetLabel(h, dim)
-				labelPacks = append(labelPacks, dimLabelPack)
-				effectiveDimensions = append(effectiveDimensions, EffectiveDimension{
-					Href:  dim,
-					Label: dimLabelPack,
-				})
+	for _, arc := range arcs {
+		if arc.Arcrole == attr.HypercubeDimensionArcrole {
+			dim := mapDLocatorToHref(linkroleURI, definition, arc.To)
+			if effectiveDimensionMap[dim] {
+				continue
 			}
+			effectiveDimensionMap[dim] = true
+			effectiveDimensionHrefs = append(effectiveDimensionHrefs, dim)
+			dimLabelPack := GetLabel(h, dim)
+			labelPacks = append(labelPacks, dimLabelPack)
+			effectiveDimensions = append(effectiveDimensions, EffectiveDimension{
+				Href:  dim,
+				Label: dimLabelPack,
+			})
 		}
 	}
 	reduced := reduce(labelPacks)
-- 
2.43.0


From d71e9545d97b1583d447a24c0ce76f473ba30c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:33 +0000
Subject: [PATCH 07/53] fix: show only members of the dimension as its
 effective members

Members of every domain of the network were listed for each dimension,
and defaults of other dimensions were listed as excluded defaults.
---
 pkg/renderables/effectiveDomainGrid.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pkg/renderables/effectiveDomainGrid.go b/pkg/renderables/effectiveDomainGrid.go
index 4c07b4a..4ab0193 100644
--- a/pkg/renderables/effectiveDomainGrid.go
+++ b/pkg/renderables/effectiveDomainGrid.go
@@ -332,7 +332,7 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 			if exclusiveHypercubeHref == mapDLocatorToHref(hypercubeDimensionNode.Locator) {
 				for _, dimensionDefaultNode := range dimensionDefaultNetwork.Children {
 					defaultDimensionHref := mapDLocatorToHref(dimensionDefaultNode.Locator)
-					if excludedDefaultMembersMap[defaultDimensionHref] {
+					if defaultDimensionHref != effectiveDimensionHref {
 						continue
 					}
 					for _, defaultMemberNode := range dimensionDefaultNode.Children {
@@ -408,8 +408,12 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 						if inclusiveDimensionHref != mapDLocatorToHref(dimensionDomainNode.Locator) {
 							continue
 						}
-						for _, node := range explicitDomainNetwork.Children {
-							traverseExplicitDomainNetwork(node, true)
+						for _, domainNode := range dimensionDomainNode.Children {
+							for _, node := range explicitDomainNetwork.Children {
+								if node.Locator == domainNode.Locator {
+									traverseExplicitDomainNetwork(node, true)
+								}
+							}
 						}
 					}
 				}
@@ -428,8 +432,12 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 						if exclusiveDimensionHref != mapDLocatorToHref(dimensionDomainNode.Locator) {
 							continue
 						}
-						for _, node := range explicitDomainNetwork.Children {
-							traverseExplicitDomainNetwork(node, false)
+						for _, domainNode := range dimensionDomainNode.Children {
+							for _, node := range explicitDomainNetwork.Children {
+								if node.Locator == domainNode.Locator {
+									traverseExplicitDomainNetwork(node, false)
+								}
+							}
 						}
 					}
 				}
-- 
2.43.0


From ea45ee0e09cdbd8c5a5ad2c0bef1aef1302104cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:04 +0000
Subject: [PATCH 08/53] fix: advertise the languages of all labels of a network

Reducing the labels dropped the languages found so far whenever a
further concept had a label in the same role.
---
 pkg/renderables/labelPack.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/renderables/labelPack.go b/pkg/renderables/labelPack.go
index 06afe3b..caf6cb6 100644
--- a/pkg/renderables/labelPack.go
+++ b/pkg/renderables/labelPack.go
@@ -38,7 +38,9 @@ func reduce(labelPacks []LabelPack) *LabelPack {
 	for i := 0; i < len(labelPacks); i++ {
 		item := labelPacks[i]
 		for labelRole, langPack := range item {
-			ret[labelRole] = make(LanguagePack)
+			if _, found := ret[labelRole]; !found {
+				ret[labelRole] = make(LanguagePack)
+			}
 			for lang, chardata := range langPack {
 				ret[labelRole][lang] = chardata
 			}
-- 
2.43.0


From 1b960cf31793c763008626e1c12575e8f3e13f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:11 +0000
Subject: [PATCH 09/53] fix: show labels given in plain English

Labels with the language en were dropped, only en-US was kept.
---
 pkg/renderables/label.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/renderables/label.go b/pkg/renderables/label.go
index 804ac2b..ee07b3d 100644
--- a/pkg/renderables/label.go
+++ b/pkg/renderables/label.go
@@ -65,8 +65,7 @@ func appendLabelModifiersFromHref(labelPack LabelPack, h *hydratables.Hydratable
 
 func appendLanguage(labelLinkLabel *hydratables.LabelLinkLabel, labelRole LabelRole, charData string, labelPack LabelPack) LabelPack {
 	switch labelLinkLabel.Lang {
-	case "en":
-	case "en-US":
+	case "en", "en-US":
 		labelPack[labelRole][English] = charData
 		break
 	case "es":
-- 
2.43.0


From ebed78a2bedebab88af723def0267e1daa9a791e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:41 +0000
Subject: [PATCH 10/53] fix: count labels of effective members and typed
 domains

The languages and label roles of these labels were not advertised.
---
 pkg/renderables/effectiveDomainGrid.go | 2 ++
 pkg/renderables/typedMember.go         | 1 +
 2 files changed, 3 insertions(+)

diff --git a/pkg/renderables/effectiveDomainGrid.go b/pkg/renderables/effectiveDomainGrid.go
index 4ab0193..6e3f6cd 100644
--- a/pkg/renderables/effectiveDomainGrid.go
+++ b/pkg/renderables/effectiveDomainGrid.go
@@ -368,6 +368,7 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 			}
 			membersMap[memberHref] = true
 			efMemLabel := GetLabel(h, memberHref)
+			labelPacks = append(labelPacks, efMemLabel)
 			ret = append(ret, EffectiveMember{
 				Href:            memberHref,
 				Label:           efMemLabel,
@@ -382,6 +383,7 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 			}
 			excludedMembersMap[memberHref] = true
 			efMemLabel := GetLabel(h, memberHref)
+			labelPacks = append(labelPacks, efMemLabel)
 			ret = append(ret, EffectiveMember{
 				Href:            memberHref,
 				Label:           efMemLabel,
diff --git a/pkg/renderables/typedMember.go b/pkg/renderables/typedMember.go
index 67c642b..aaf84ba 100644
--- a/pkg/renderables/typedMember.go
+++ b/pkg/renderables/typedMember.go
@@ -29,6 +29,7 @@ func getTypedMember(typedMember hydratables.TypedMember, dimension Dimension,
 	}
 	for typedDomain, typedMember := range typedMember.TypedMembersMap {
 		typedDomainLabel := GetLabel(h, typedDomain)
+		labelPacks = append(labelPacks, typedDomainLabel)
 		ret = append(ret, RelevantMember{
 			Dimension: dimension,
 			TypedDomain: &TypedDomain{
-- 
2.43.0


From 47f321cae563c226efff5ba0860e125ea83cbe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:18 +0000
Subject: [PATCH 11/53] fix: find all footnotes attached to a fact

Only the first footnote link with arcs was looked at, locators of other
links were mixed in, and footnotes were found by id although arcs refer
to their labels.
---
 pkg/hydratables/fact.go | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/pkg/hydratables/fact.go b/pkg/hydratables/fact.go
index 1ba33fc..2e13fe0 100644
--- a/pkg/hydratables/fact.go
+++ b/pkg/hydratables/fact.go
@@ -46,17 +46,14 @@ func (h *Hydratable) GetFootnotes(fact *Fact) []*Footnote {
 	if fact == nil {
 		return make([]*Footnote, 0)
 	}
+	ret := make([]*Footnote, 0)
 	for _, instance := range h.Instances {
 		for _, footnoteLink := range instance.FootnoteLinks {
 			arcs := footnoteLink.FootnoteArcs
 			fnoteArcs := fnoteArcs(arcs)
 			root := graph.Tree(fnoteArcs, attr.FactFootnoteArcrole)
-			ret := make([]*Footnote, 0, len(arcs))
-			if len(root.Children) <= 0 {
-				return nil
-			}
 			for _, child := range root.Children {
-				href := mapFnoteLocatorToHref(&instance, child.Locator)
+				href := mapFnoteLocatorToHref(&footnoteLink, child.Locator)
 				locatedID := href
 				pos := strings.LastIndex(href, "#")
 				if pos > -1 {
@@ -67,7 +64,7 @@ func (h *Hydratable) GetFootnotes(fact *Fact) []*Footnote {
 				}
 				if locatedID == fact.ID {
 					for _, grandchild := range child.Children {
-						footnoteHref := mapFnoteLocatorToHref(&instance, grandchild.Locator)
+						footnoteHref := mapFnoteLocatorToHref(&footnoteLink, grandchild.Locator)
 						locatedFnoteID := footnoteHref
 						pos := strings.LastIndex(footnoteHref, "#")
 						if pos > -1 {
@@ -76,28 +73,36 @@ func (h *Hydratable) GetFootnotes(fact *Fact) []*Footnote {
 								locatedFnoteID = footnoteHref[adjustedPos:]
 							}
 						}
-						locatedFootnote := h.FindFootnote(locatedFnoteID)
+						locatedFootnote := footnoteLink.findFootnote(locatedFnoteID)
+						if locatedFootnote == nil {
+							locatedFootnote = h.FindFootnote(locatedFnoteID)
+						}
 						if locatedFootnote != nil {
 							ret = append(ret, locatedFootnote)
 						}
 					}
-					return ret
 				}
 			}
 		}
 	}
+	return ret
+}
+
+func (footnoteLink *FootnoteLink) findFootnote(label string) *Footnote {
+	for _, footnote := range footnoteLink.Footnotes {
+		if footnote.Label == label {
+			return &footnote
+		}
+	}
 	return nil
 }
 
-func mapFnoteLocatorToHref(instance *Instance, locator string) string {
-	footnoteLinks := instance.FootnoteLinks
-	for _, footnoteLink := range footnoteLinks {
-		for _, loc := range footnoteLink.Locs {
-			if loc.Label == locator {
-				i := strings.Index(loc.Href, "#")
-				if i >= 0 {
-					return loc.Href
-				}
+func mapFnoteLocatorToHref(footnoteLink *FootnoteLink, locator string) string {
+	for _, loc := range footnoteLink.Locs {
+		if loc.Label == locator {
+			i := strings.Index(loc.Href, "#")
+			if i >= 0 {
+				return loc.Href
 			}
 		}
 	}
-- 
2.43.0


From 5a49593e823f73730d18a6dcb79867e27e52baea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:36 +0000
Subject: [PATCH 12/53] fix: number footnotes in one order for marks and list

Marks and the list were numbered by separate walks over a map, so marks
could lead to the wrong footnote.
---
 pkg/renderables/factualQuadrant.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/renderables/factualQuadrant.go b/pkg/renderables/factualQuadrant.go
index b6b1922..07c4748 100644
--- a/pkg/renderables/factualQuadrant.go
+++ b/pkg/renderables/factualQuadrant.go
@@ -26,6 +26,7 @@ func getFactualQuadrant(hrefs []string, relevantContexts []relevantContext,
 	ret := make([][]*MultilingualFact, rowCount)
 	footnoteGrid := make([][][]*hydratables.Footnote, rowCount)
 	idMap := make(map[string]*hydratables.Footnote)
+	ids := make([]string, 0)
 	for i := 0; i < rowCount; i++ {
 		row := make([]*MultilingualFact, colCount)
 		footnoteRow := make([][]*hydratables.Footnote, colCount)
@@ -39,6 +40,7 @@ func getFactualQuadrant(hrefs []string, relevantContexts []relevantContext,
 			for _, footnote := range footnotes {
 				if _, found := idMap[footnote.ID]; !found {
 					idMap[footnote.ID] = footnote
+					ids = append(ids, footnote.ID)
 				}
 			}
 			row[j] = render(fact, conceptFinder, measurementFinder, langs)
@@ -55,7 +57,7 @@ func getFactualQuadrant(hrefs []string, relevantContexts []relevantContext,
 			footnotes := footnoteGrid[i][j]
 			k := 1
 			ints := make([]int, 0)
-			for id := range idMap {
+			for _, id := range ids {
 				for _, footnote := range footnotes {
 					if footnote.ID == id {
 						ints = append(ints, k)
@@ -67,8 +69,8 @@ func getFactualQuadrant(hrefs []string, relevantContexts []relevantContext,
 			grid[i][j] = ints
 		}
 	}
-	for _, footnote := range idMap {
-		arr = append(arr, footnote.InnerHtml)
+	for _, id := range ids {
+		arr = append(arr, idMap[id].InnerHtml)
 	}
 	return ret, grid, arr
 }
-- 
2.43.0


From b49eb123a61b0b92e6517795744f2efdaa163a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:12 +0000
Subject: [PATCH 13/53] fix: show every digit of a reported number

---
 pkg/renderables/fact.go | 65 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 65 insertions(+)

diff --git a/pkg/renderables/fact.go b/pkg/renderables/fact.go
index 920bb57..d91cca8 100644
--- a/pkg/renderables/fact.go
+++ b/pkg/renderables/fact.go
@@ -3,6 +3,7 @@ package renderables
 import (
 	"fmt"
 	"math/big"
+	"strings"
 
 	"ecksbee.com/telefacts/pkg/attr"
 	"ecksbee.com/telefacts/pkg/hydratables"
@@ -71,6 +72,9 @@ func renderPercent(value string, precision hydratables.Precision, g rune) (*Fact
 
 func renderNumeric(value string, precision hydratables.Precision, g rune) (*FactExpression, error) {
 	p := digits.Precision(int(precision))
+	if integer, fraction, ok := plainDecimal(value); ok {
+		return renderDecimal(strings.HasPrefix(value, "-"), integer, fraction, p, g), nil
+	}
 	digit, err := digits.New(p, value, g, digits.PreserveUpToHundredth)
 	if err != nil {
 		return nil, fmt.Errorf("failed to convert fact to numeric expression")
@@ -81,3 +85,64 @@ func renderNumeric(value string, precision hydratables.Precision, g rune) (*Fact
 		Tail: digit.Tail(),
 	}, nil
 }
+
+// plainDecimal splits a number that is written with digits only.
+func plainDecimal(value string) (string, string, bool) {
+	number := value
+	if strings.HasPrefix(number, "-") || strings.HasPrefix(number, "+") {
+		number = number[1:]
+	}
+	integer, fraction, _ := strings.Cut(number, ".")
+	if integer+fraction == "" || strings.Trim(integer+fraction, "0123456789") != "" {
+		return "", "", false
+	}
+	return strings.TrimLeft(integer, "0"), strings.TrimRight(fraction, "0"), true
+}
+
+// renderDecimal sets out every digit of a number. The digits up to the
+// precision make up the core; a number that is not a multiple of its precision
+// is set out as an exact number.
+func renderDecimal(negative bool, integer string, fraction string, p digits.Precision, g rune) *FactExpression {
+	p = min(p, digits.Precision(max(len(fraction), int(digits.MaximumDecimals))))
+	isZero := integer == "" && fraction == ""
+	trailing := len(integer) - len(strings.TrimRight(integer, "0"))
+	if fraction != "" && len(fraction) > int(p) || !isZero && trailing < -int(p) {
+		p = digits.Exact
+	}
+	if integer == "" {
+		integer = "0"
+	}
+	places := len(fraction)
+	if p != digits.Exact || places == 0 {
+		places = max(places, int(p), int(digits.PreserveUpToHundredth))
+	}
+	number := strings.Builder{}
+	significant := 0
+	for i, digit := range integer {
+		if i > 0 && (len(integer)-i)%3 == 0 {
+			number.WriteRune(g)
+		}
+		number.WriteRune(digit)
+		if isZero || p == digits.Exact || i < len(integer)+int(p) {
+			significant = number.Len()
+		}
+	}
+	number.WriteString("." + fraction + strings.Repeat("0", places-len(fraction)))
+	switch {
+	case p == digits.Exact:
+		significant += 1 + len(fraction)
+	case p > digits.Oneth:
+		significant += 1 + int(p)
+	case isZero:
+		significant++
+	}
+	ret := FactExpression{
+		Core: number.String()[:significant],
+		Tail: number.String()[significant:],
+	}
+	if negative {
+		ret.Head = "("
+		ret.Tail += ")"
+	}
+	return &ret
+}
-- 
2.43.0


From 7335324a0ccd095f88ba8f7110222510016f815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:59 +0000
Subject: [PATCH 14/53] fix: look up the denominator of a unit by its own name

---
 pkg/hydratables/measurement.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/hydratables/measurement.go b/pkg/hydratables/measurement.go
index 29a2838..2c76aca 100644
--- a/pkg/hydratables/measurement.go
+++ b/pkg/hydratables/measurement.go
@@ -171,7 +171,7 @@ func (h *Hydratable) FindMeasurement(unitRef string) (*Measurement, *Measurement
 					return queryUTR(unit.Divide.UnitNumerator.Measure.XMLName.Space,
 							unit.Divide.UnitNumerator.Measure.XMLName.Local),
 						queryUTR(unit.Divide.UnitDenominator.Measure.XMLName.Space,
-							unit.Divide.UnitNumerator.Measure.XMLName.Local)
+							unit.Divide.UnitDenominator.Measure.XMLName.Local)
 				}
 				return queryUTR(unit.Measure.XMLName.Space, unit.Measure.XMLName.Local), nil
 			}
-- 
2.43.0


From c8661a6e34ac890e06571703ccbb729ac4226c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:35 +0000
Subject: [PATCH 15/53] fix: compute percentages without rounding

---
 pkg/renderables/fact.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/renderables/fact.go b/pkg/renderables/fact.go
index d91cca8..926d1c8 100644
--- a/pkg/renderables/fact.go
+++ b/pkg/renderables/fact.go
@@ -62,6 +62,16 @@ func SigFigs(value string, precision hydratables.Precision, concept *hydratables
 }
 
 func renderPercent(value string, precision hydratables.Precision, g rune) (*FactExpression, error) {
+	if integer, fraction, ok := plainDecimal(value); ok {
+		for len(fraction) < 2 {
+			fraction += "0"
+		}
+		percent := integer + fraction[:2] + "." + fraction[2:]
+		if strings.HasPrefix(value, "-") {
+			percent = "-" + percent
+		}
+		return renderNumeric(percent, precision, g)
+	}
 	f, _, err := big.ParseFloat(value, 10, digits.PREC_BITS, big.ToZero)
 	if err != nil {
 		return nil, fmt.Errorf("failed to convert fact to numeric expression")
-- 
2.43.0


From 88a40be0678772fc5351de434e1a5cb45b8ba9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:54 +0000
Subject: [PATCH 16/53] fix: escape the text of text blocks

---
 pkg/renderables/textBlock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderables/textBlock.go b/pkg/renderables/textBlock.go
index 5fac5fe..421bf34 100644
--- a/pkg/renderables/textBlock.go
+++ b/pkg/renderables/textBlock.go
@@ -110,7 +110,7 @@ func renderTextBlock(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFin
 		case html.TextToken:
 			data := strings.TrimSpace(token.Data)
 			if len(data) > 0 {
-				tokenized += data + " "
+				tokenized += gohtml.EscapeString(data) + " "
 			}
 		case html.EndTagToken:
 			switch token.Data {
-- 
2.43.0


From 1143391b28e033ac54484328eb921338f1e4e287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:10 +0000
Subject: [PATCH 17/53] fix: show text blocks that are held in CDATA sections

---
 pkg/renderables/textBlock.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/renderables/textBlock.go b/pkg/renderables/textBlock.go
index 421bf34..0397917 100644
--- a/pkg/renderables/textBlock.go
+++ b/pkg/renderables/textBlock.go
@@ -3,6 +3,7 @@ package renderables
 import (
 	gohtml "html"
 	"io"
+	"regexp"
 	"strconv"
 	"strings"
 
@@ -12,6 +13,8 @@ import (
 	"golang.org/x/net/html"
 )
 
+var cdata = regexp.MustCompile(`(?s)<!\[CDATA\[.*?\]\]>`)
+
 func findHtmlAttr(attrs []html.Attribute, attr string) *html.Attribute {
 	for _, a := range attrs {
 		if a.Key == attr {
@@ -54,7 +57,10 @@ func renderTextBlock(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFin
 	if !isTextBlock {
 		return nil
 	}
-	r := strings.NewReader(gohtml.UnescapeString(fact.XMLInner))
+	escaped := cdata.ReplaceAllStringFunc(fact.XMLInner, func(section string) string {
+		return gohtml.EscapeString(section[len("<![CDATA[") : len(section)-len("]]>")])
+	})
+	r := strings.NewReader(gohtml.UnescapeString(escaped))
 	tokenizer := html.NewTokenizer(r)
 	tokenized := ""
 	disableBr := 0
-- 
2.43.0


From d946a23d8c70ba20658af799af68953f34033eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:26 +0000
Subject: [PATCH 18/53] fix: build text blocks in linear time

---
 pkg/renderables/textBlock.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/pkg/renderables/textBlock.go b/pkg/renderables/textBlock.go
index 0397917..cb8e32a 100644
--- a/pkg/renderables/textBlock.go
+++ b/pkg/renderables/textBlock.go
@@ -62,7 +62,7 @@ func renderTextBlock(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFin
 	})
 	r := strings.NewReader(gohtml.UnescapeString(escaped))
 	tokenizer := html.NewTokenizer(r)
-	tokenized := ""
+	tokenized := strings.Builder{}
 	disableBr := 0
 	thcolspans := make([]int, 0)
 	tdcolspans := make([]int, 0)
@@ -79,20 +79,20 @@ func renderTextBlock(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFin
 			switch token.Data {
 			case "table":
 				disableBr++
-				tokenized += "<table>"
+				tokenized.WriteString("<table>")
 			case "tr":
-				tokenized += "<tr>"
+				tokenized.WriteString("<tr>")
 			case "th":
-				tokenized += "<th>"
+				tokenized.WriteString("<th>")
 				colSpanHelper(token.Attr, func(colspan int) {
 					thcolspans = append(thcolspans, colspan)
-					tokenized += "<th>"
+					tokenized.WriteString("<th>")
 				})
 			case "td":
-				tokenized += "<td>"
+				tokenized.WriteString("<td>")
 				colSpanHelper(token.Attr, func(colspan int) {
 					tdcolspans = append(tdcolspans, colspan)
-					tokenized += "<td>"
+					tokenized.WriteString("<td>")
 				})
 			}
 			if disableBr <= 0 {
@@ -108,7 +108,7 @@ func renderTextBlock(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFin
 				}
 				for _, elem := range blockElems {
 					if elem == token.Data {
-						tokenized += "<br /><br />"
+						tokenized.WriteString("<br /><br />")
 						break
 					}
 				}
@@ -116,32 +116,32 @@ func renderTextBlock(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFin
 		case html.TextToken:
 			data := strings.TrimSpace(token.Data)
 			if len(data) > 0 {
-				tokenized += gohtml.EscapeString(data) + " "
+				tokenized.WriteString(gohtml.EscapeString(data) + " ")
 			}
 		case html.EndTagToken:
 			switch token.Data {
 			case "table":
 				disableBr--
-				tokenized += "</table>"
+				tokenized.WriteString("</table>")
 			case "tr":
-				tokenized += "</tr>"
+				tokenized.WriteString("</tr>")
 			case "th":
-				tokenized += "</th>"
+				tokenized.WriteString("</th>")
 				colSpan2Helper(thcolspans, func(colspan int) {
 					thcolspans = thcolspans[:len(thcolspans)-1]
-					tokenized += "</th>"
+					tokenized.WriteString("</th>")
 				})
 			case "td":
-				tokenized += "</td>"
+				tokenized.WriteString("</td>")
 				colSpan2Helper(tdcolspans, func(colspan int) {
 					tdcolspans = tdcolspans[:len(tdcolspans)-1]
-					tokenized += "</td>"
+					tokenized.WriteString("</td>")
 				})
 			}
 		}
 	}
 
 	return &FactExpression{
-		InnerHtml: tokenized,
+		InnerHtml: tokenized.String(),
 	}
 }
-- 
2.43.0


From 1d3023fcf020a50b17ebd522cbac636398d372e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:35 +0000
Subject: [PATCH 19/53] fix: limit the column spans of text blocks

---
 pkg/renderables/textBlock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/renderables/textBlock.go b/pkg/renderables/textBlock.go
index cb8e32a..7cbce60 100644
--- a/pkg/renderables/textBlock.go
+++ b/pkg/renderables/textBlock.go
@@ -15,6 +15,9 @@ import (
 
 var cdata = regexp.MustCompile(`(?s)<!\[CDATA\[.*?\]\]>`)
 
+// the limit HTML puts on colspan
+const maxColSpan = 1000
+
 func findHtmlAttr(attrs []html.Attribute, attr string) *html.Attribute {
 	for _, a := range attrs {
 		if a.Key == attr {
@@ -29,6 +32,7 @@ func colSpanHelper(attrs []html.Attribute, cb func(int)) {
 	if a != nil {
 		colspan, err := strconv.Atoi(a.Val)
 		if err == nil {
+			colspan = min(colspan, maxColSpan)
 			for i := 0; i < colspan-1; i++ {
 				cb(colspan)
 			}
-- 
2.43.0


From d7a8dc7b6feacc2a99df76ef9834beed34b7d2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:57 +0000
Subject: [PATCH 20/53] fix: render networks when there is no name register

---
 pkg/renderables/renderable.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/renderables/renderable.go b/pkg/renderables/renderable.go
index 67fcd8e..244c21e 100644
--- a/pkg/renderables/renderable.go
+++ b/pkg/renderables/renderable.go
@@ -91,9 +91,9 @@ func MarshalRenderable(slug string, h *hydratables.Hydratable) ([]byte, error) {
 				labelRoles = dedupLabelRole(labelRoles)
 				p, d, c = formatPeriod(p, d, c, langs)
 				name := schemedEntity.Scheme + "/" + schemedEntity.CharData
-				hydratedName, err := hydratables.EntityQuery(schemedEntity.Scheme,
+				hydratedName, nameErr := hydratables.EntityQuery(schemedEntity.Scheme,
 					schemedEntity.CharData)
-				if err == nil {
+				if nameErr == nil {
 					name = hydratedName
 				}
 				ret := Renderable{
-- 
2.43.0


From 28a368b3fb28586de3efab7ae524dc48917b6c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:14 +0000
Subject: [PATCH 21/53] fix: read the roles of all annotations of a schema

---
 pkg/hydratables/schema.go | 73 +++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 38 deletions(-)

diff --git a/pkg/hydratables/schema.go b/pkg/hydratables/schema.go
index e115d82..e7803d4 100644
--- a/pkg/hydratables/schema.go
+++ b/pkg/hydratables/schema.go
@@ -86,50 +86,47 @@ func hydrateAttributeFormDefault(file *serializables.SchemaFile) string {
 }
 
 func hydrateAnnotation(file *serializables.SchemaFile) Annotation {
-	ret := Annotation{}
-	if len(file.Annotation) <= 0 {
-		return ret
-	}
-	if file.Annotation[0].XMLName.Space != attr.XSD {
-		return ret
-	}
-	if len(file.Annotation[0].Appinfo) <= 0 {
-		return ret
-	}
-	if file.Annotation[0].Appinfo[0].XMLName.Space != attr.XSD {
-		return ret
-	}
-	roleTypes := make([]RoleType, 0, len(file.Annotation[0].Appinfo[0].RoleType))
-	for _, roleType := range file.Annotation[0].Appinfo[0].RoleType {
-		if roleType.XMLName.Space != attr.LINK {
-			continue
-		}
-		newRoleType := RoleType{}
-		idAttr := attr.FindAttr(roleType.XMLAttrs, "id")
-		if idAttr == nil || idAttr.Value == "" {
-			continue
-		}
-		newRoleType.ID = idAttr.Value
-		roleuriAttr := attr.FindAttr(roleType.XMLAttrs, "roleURI")
-		if roleuriAttr == nil || roleuriAttr.Value == "" {
+	roleTypes := make([]RoleType, 0)
+	for _, annotation := range file.Annotation {
+		if annotation.XMLName.Space != attr.XSD {
 			continue
 		}
-		newRoleType.RoleURI = roleuriAttr.Value
-		if len(roleType.Definition) > 0 {
-			newRoleType.Definition = roleType.Definition[0].CharData
-		}
-		if len(roleType.UsedOn) > 0 {
-			newRoleType.UsedOn = make([]struct{ CharData string }, 0, len(roleType.UsedOn))
-			for _, usedOn := range roleType.UsedOn {
-				if usedOn.XMLName.Space != attr.LINK {
+		for _, appinfo := range annotation.Appinfo {
+			if appinfo.XMLName.Space != attr.XSD {
+				continue
+			}
+			for _, roleType := range appinfo.RoleType {
+				if roleType.XMLName.Space != attr.LINK {
+					continue
+				}
+				newRoleType := RoleType{}
+				idAttr := attr.FindAttr(roleType.XMLAttrs, "id")
+				if idAttr == nil || idAttr.Value == "" {
 					continue
 				}
-				newRoleType.UsedOn = append(newRoleType.UsedOn, struct{ CharData string }{
-					CharData: usedOn.CharData,
-				})
+				newRoleType.ID = idAttr.Value
+				roleuriAttr := attr.FindAttr(roleType.XMLAttrs, "roleURI")
+				if roleuriAttr == nil || roleuriAttr.Value == "" {
+					continue
+				}
+				newRoleType.RoleURI = roleuriAttr.Value
+				if len(roleType.Definition) > 0 {
+					newRoleType.Definition = roleType.Definition[0].CharData
+				}
+				if len(roleType.UsedOn) > 0 {
+					newRoleType.UsedOn = make([]struct{ CharData string }, 0, len(roleType.UsedOn))
+					for _, usedOn := range roleType.UsedOn {
+						if usedOn.XMLName.Space != attr.LINK {
+							continue
+						}
+						newRoleType.UsedOn = append(newRoleType.UsedOn, struct{ CharData string }{
+							CharData: usedOn.CharData,
+						})
+					}
+				}
+				roleTypes = append(roleTypes, newRoleType)
 			}
 		}
-		roleTypes = append(roleTypes, newRoleType)
 	}
 	return Annotation{
 		Appinfo: Appinfo{
-- 
2.43.0


From 6a83a4ee33c8992aee474fde308a005e344c4ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:03 +0000
Subject: [PATCH 22/53] fix: answer fact requests on reports that are not
 inline

---
 pkg/renderables/expressable.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/renderables/expressable.go b/pkg/renderables/expressable.go
index 36df4e0..34db3a3 100644
--- a/pkg/renderables/expressable.go
+++ b/pkg/renderables/expressable.go
@@ -19,6 +19,9 @@ type Expressable struct {
 }
 
 func MarshalExpressable(name string, contextref string, h *hydratables.Hydratable) ([]byte, error) {
+	if h.Document == nil {
+		return nil, nil
+	}
 	xmlname, found := h.Document.NamespaceMap[name]
 	if !found {
 		return nil, nil
-- 
2.43.0


From 32488b6d5f3626bb028cbdaeac605cf40ee25dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:24 +0000
Subject: [PATCH 23/53] fix: show the dimensions of a fact only from its own
 context

---
 pkg/renderables/expressable.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/pkg/renderables/expressable.go b/pkg/renderables/expressable.go
index 34db3a3..a7fbfc5 100644
--- a/pkg/renderables/expressable.go
+++ b/pkg/renderables/expressable.go
@@ -46,19 +46,13 @@ func MarshalExpressable(name string, contextref string, h *hydratables.Hydratabl
 	}
 	context := getContext(extracted, contextref)
 	period := periodMultilingualString(labels, context)
-	entity := stringify(&Entity{
-		Scheme:   context.Entity.Identifier.Scheme,
-		CharData: context.Entity.Identifier.CharData,
-	})
-	relevantContexts, segment, scenario, _ := getRelevantContexts(entity, h, []string{
-		href,
-	})
-	expressedContexts := make([]relevantContext, 0)
-	for _, relevantContext := range relevantContexts {
-		if relevantContext.ContextRef == contextref {
-			expressedContexts = append(expressedContexts, relevantContext)
-			break
-		}
+	members, segment, scenario, _ := getContextualMembers(context, h)
+	expressedContexts := []relevantContext{
+		{
+			ContextRef:   context.ID,
+			PeriodHeader: periodString(context),
+			Members:      members,
+		},
 	}
 	memberGrid, voidQuadrant := getMemberGridAndVoidQuadrant(expressedContexts, segment, scenario)
 	footnotes := h.GetFootnotes(hydratedFact)
-- 
2.43.0


From 7ed8ca589f4e2184d7669411158ef161f69f811e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:25 +0000
Subject: [PATCH 24/53] fix: embed images without rewriting the rest of the
 document

---
 pkg/serializables/image.go | 59 ++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/pkg/serializables/image.go b/pkg/serializables/image.go
index afa32d4..82fa56a 100644
--- a/pkg/serializables/image.go
+++ b/pkg/serializables/image.go
@@ -2,41 +2,52 @@ package serializables
 
 import (
 	"bytes"
+	"io"
 	"path/filepath"
 
 	"golang.org/x/net/html"
 )
 
+// TransformInlineImages rewrites the img tags that name one of the images, the
+// rest of the document stays as it is.
 func TransformInlineImages(src []byte, images map[string]string) []byte {
-	root, err := html.Parse(bytes.NewReader(src))
-	if err != nil {
-		return src
-	}
-
-	replace(root, images)
-	transformed := make([]byte, 0)
-	buf := bytes.NewBuffer(transformed)
-	if err = html.Render(buf, root); err != nil {
-		return src
+	tokenizer := html.NewTokenizer(bytes.NewReader(src))
+	tokenizer.AllowCDATA(true)
+	transformed := make([]byte, 0, len(src))
+	for {
+		tt := tokenizer.Next()
+		raw := string(tokenizer.Raw())
+		if tt == html.SelfClosingTagToken {
+			tokenizer.NextIsNotRawText()
+		}
+		if tt == html.SelfClosingTagToken || tt == html.StartTagToken {
+			token := tokenizer.Token()
+			if replace(&token, images) {
+				raw = token.String()
+			}
+		}
+		transformed = append(transformed, raw...)
+		if tt == html.ErrorToken {
+			if tokenizer.Err() != io.EOF {
+				return src
+			}
+			return transformed
+		}
 	}
-	return buf.Bytes()
 }
 
-func replace(n *html.Node, images map[string]string) {
-	if n.Type == html.ElementNode {
-		if n.Data == "img" {
-			for i, myattr := range n.Attr {
-				if myattr.Key == "src" {
-					value := filepath.Base(myattr.Val)
-					if data, found := images[value]; found {
-						n.Attr[i].Val = data
-					}
+func replace(token *html.Token, images map[string]string) bool {
+	replaced := false
+	if token.Data == "img" {
+		for i, myattr := range token.Attr {
+			if myattr.Key == "src" {
+				value := filepath.Base(myattr.Val)
+				if data, found := images[value]; found {
+					token.Attr[i].Val = data
+					replaced = true
 				}
 			}
 		}
 	}
-
-	for child := n.FirstChild; child != nil; child = child.NextSibling {
-		replace(child, images)
-	}
+	return replaced
 }
-- 
2.43.0


From 63fcc692d421a072533a32effda2238c5d5773d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:34 +0000
Subject: [PATCH 25/53] fix: report unreadable inline documents that come with
 images

---
 pkg/serializables/folder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/serializables/folder.go b/pkg/serializables/folder.go
index d788093..2387244 100644
--- a/pkg/serializables/folder.go
+++ b/pkg/serializables/folder.go
@@ -57,12 +57,12 @@ func Discover(id string) (*Folder, error) {
 			return nil, err
 		}
 		doc := DecodeIxbrlFile(data)
-		if len(ret.Images) > 0 {
-			doc.Bytes = TransformInlineImages(data, ret.Images)
-		}
 		if doc == nil {
 			return nil, fmt.Errorf("failed to decode IXBRL source document")
 		}
+		if len(ret.Images) > 0 {
+			doc.Bytes = TransformInlineImages(data, ret.Images)
+		}
 		ret.Document = doc
 		extracted := filepath.Join(workingDir, entryFileName+".xml")
 		if _, err := os.Stat(extracted); errors.Is(err, os.ErrNotExist) {
-- 
2.43.0


From 5947bd20e777e8d5438fc8e1aa662d670f3275a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:21 +0000
Subject: [PATCH 26/53] fix: load folders whose schemas refer to each other in
 circles

---
 pkg/serializables/folder.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pkg/serializables/folder.go b/pkg/serializables/folder.go
index 2387244..a7b58bf 100644
--- a/pkg/serializables/folder.go
+++ b/pkg/serializables/folder.go
@@ -16,6 +16,7 @@ import (
 
 type Folder struct {
 	wLock                 sync.Mutex
+	visited               map[string]bool
 	EntryFileName         string
 	Dir                   string
 	Document              *Document
@@ -38,6 +39,7 @@ func Discover(id string) (*Folder, error) {
 	ret := &Folder{
 		EntryFileName:         entryFileName,
 		Dir:                   workingDir,
+		visited:               make(map[string]bool),
 		Namespaces:            make(map[string]string),
 		Instances:             make(map[string]InstanceFile),
 		Schemas:               make(map[string]SchemaFile),
@@ -90,6 +92,17 @@ func Discover(id string) (*Folder, error) {
 	return ret, nil
 }
 
+// visit tells whether a schema is reached for the first time.
+func (folder *Folder) visit(location string) bool {
+	folder.wLock.Lock()
+	defer folder.wLock.Unlock()
+	if folder.visited[location] {
+		return false
+	}
+	folder.visited[location] = true
+	return true
+}
+
 func (folder *Folder) schemaRef(file *InstanceFile) {
 	if file == nil {
 		return
@@ -126,6 +139,9 @@ func (folder *Folder) schemaRef(file *InstanceFile) {
 			folder.wLock.Lock()
 			folder.Namespaces[targetNS.Value] = hrefAttr.Value
 			folder.wLock.Unlock()
+			if !folder.visit(hrefAttr.Value) {
+				return
+			}
 			var wwg sync.WaitGroup
 			wwg.Add(3)
 			go func() {
@@ -185,6 +201,9 @@ func (folder *Folder) includeSchema(file *SchemaFile) {
 			folder.wLock.Lock()
 			folder.Namespaces[targetNS.Value] = schemaLocationAttr.Value
 			folder.wLock.Unlock()
+			if !folder.visit(schemaLocationAttr.Value) {
+				return
+			}
 			var wwg sync.WaitGroup
 			wwg.Add(3)
 			go func() {
@@ -244,6 +263,9 @@ func (folder *Folder) importSchema(file *SchemaFile) {
 			if err != nil {
 				return
 			}
+			if !folder.visit(schemaLocationAttr.Value) {
+				return
+			}
 			var wwg sync.WaitGroup
 			wwg.Add(3)
 			go func() {
-- 
2.43.0


From 18860aba8b85b1d9de3de3b8740e85d5af5520d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:46 +0000
Subject: [PATCH 27/53] fix: find the concepts of all schemas that share a
 namespace

---
 pkg/hydratables/query.go    | 48 +++++++++++++++++++++----------------
 pkg/serializables/folder.go | 25 ++++++++++++-------
 2 files changed, 43 insertions(+), 30 deletions(-)

diff --git a/pkg/hydratables/query.go b/pkg/hydratables/query.go
index 4304545..0f9ba2f 100644
--- a/pkg/hydratables/query.go
+++ b/pkg/hydratables/query.go
@@ -2,6 +2,7 @@ package hydratables
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"ecksbee.com/telefacts/pkg/attr"
@@ -50,32 +51,37 @@ func (h *Hydratable) HashQuery(query string) (string, *Concept, error) {
 }
 
 func (h *Hydratable) NameQuery(namespace string, localName string) (string, *Concept, error) {
-	var schemaLoc string
-	var concepts []Concept
-	schemaLoc = h.Folder.Namespaces[namespace]
-	if len(schemaLoc) <= 0 {
+	locations := append([]string{}, h.Folder.Locations[namespace]...)
+	if len(locations) <= 0 {
 		return "", nil, fmt.Errorf("%s is not scoped into the folder", namespace)
 	}
-	if attr.IsValidUrl(schemaLoc) {
-		schema, err := HydrateGlobalSchema(schemaLoc)
-		if err != nil {
-			return "", nil, err
+	sort.Strings(locations)
+	var failed error
+	for _, schemaLoc := range locations {
+		var concepts []Concept
+		if attr.IsValidUrl(schemaLoc) {
+			schema, err := HydrateGlobalSchema(schemaLoc)
+			if err != nil {
+				failed = err
+				continue
+			}
+			concepts = schema.Element
+		} else {
+			file := h.Folder.Schemas[schemaLoc]
+			schema, err := HydrateSchema(&file, schemaLoc)
+			if err != nil {
+				failed = err
+				continue
+			}
+			concepts = schema.Element
 		}
-		concepts = schema.Element
-	} else {
-		file := h.Folder.Schemas[schemaLoc]
-		schema, err := HydrateSchema(&file, schemaLoc)
-		if err != nil {
-			return "", nil, err
-		}
-		concepts = schema.Element
-	}
-	for _, candidate := range concepts {
-		if localName == candidate.XMLName.Local && namespace == candidate.XMLName.Space {
-			return schemaLoc + "#" + candidate.ID, &candidate, nil
+		for _, candidate := range concepts {
+			if localName == candidate.XMLName.Local && namespace == candidate.XMLName.Space {
+				return schemaLoc + "#" + candidate.ID, &candidate, nil
+			}
 		}
 	}
-	return "", nil, nil
+	return "", nil, failed
 }
 
 func EntityQuery(scheme string, chardata string) (string, error) {
diff --git a/pkg/serializables/folder.go b/pkg/serializables/folder.go
index a7b58bf..c7ae0fd 100644
--- a/pkg/serializables/folder.go
+++ b/pkg/serializables/folder.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"slices"
 	"sync"
 
 	"ecksbee.com/telefacts/pkg/attr"
@@ -21,6 +22,7 @@ type Folder struct {
 	Dir                   string
 	Document              *Document
 	Namespaces            map[string]string
+	Locations             map[string][]string
 	Instances             map[string]InstanceFile
 	Schemas               map[string]SchemaFile
 	LabelLinkbases        map[string]LabelLinkbaseFile
@@ -41,6 +43,7 @@ func Discover(id string) (*Folder, error) {
 		Dir:                   workingDir,
 		visited:               make(map[string]bool),
 		Namespaces:            make(map[string]string),
+		Locations:             make(map[string][]string),
 		Instances:             make(map[string]InstanceFile),
 		Schemas:               make(map[string]SchemaFile),
 		LabelLinkbases:        make(map[string]LabelLinkbaseFile),
@@ -92,6 +95,16 @@ func Discover(id string) (*Folder, error) {
 	return ret, nil
 }
 
+// scope adds a schema location to a namespace, which may have several.
+func (folder *Folder) scope(namespace string, location string) {
+	folder.wLock.Lock()
+	defer folder.wLock.Unlock()
+	folder.Namespaces[namespace] = location
+	if !slices.Contains(folder.Locations[namespace], location) {
+		folder.Locations[namespace] = append(folder.Locations[namespace], location)
+	}
+}
+
 // visit tells whether a schema is reached for the first time.
 func (folder *Folder) visit(location string) bool {
 	folder.wLock.Lock()
@@ -136,9 +149,7 @@ func (folder *Folder) schemaRef(file *InstanceFile) {
 			if targetNS == nil || targetNS.Value == "" {
 				return
 			}
-			folder.wLock.Lock()
-			folder.Namespaces[targetNS.Value] = hrefAttr.Value
-			folder.wLock.Unlock()
+			folder.scope(targetNS.Value, hrefAttr.Value)
 			if !folder.visit(hrefAttr.Value) {
 				return
 			}
@@ -198,9 +209,7 @@ func (folder *Folder) includeSchema(file *SchemaFile) {
 			if targetNS == nil || targetNS.Value == "" {
 				return
 			}
-			folder.wLock.Lock()
-			folder.Namespaces[targetNS.Value] = schemaLocationAttr.Value
-			folder.wLock.Unlock()
+			folder.scope(targetNS.Value, schemaLocationAttr.Value)
 			if !folder.visit(schemaLocationAttr.Value) {
 				return
 			}
@@ -251,9 +260,7 @@ func (folder *Folder) importSchema(file *SchemaFile) {
 			if schemaLocationAttr == nil || schemaLocationAttr.Value == "" {
 				return
 			}
-			folder.wLock.Lock()
-			folder.Namespaces[namespaceAttr.Value] = schemaLocationAttr.Value
-			folder.wLock.Unlock()
+			folder.scope(namespaceAttr.Value, schemaLocationAttr.Value)
 			if attr.IsValidUrl(schemaLocationAttr.Value) {
 				go DiscoverGlobalSchema(schemaLocationAttr.Value)
 				return
-- 
2.43.0


From 237477fd3f640735cfb2c0714f91557b577a582e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:27 +0000
Subject: [PATCH 28/53] fix: keep references of a filing inside its folder

---
 pkg/serializables/folder.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/pkg/serializables/folder.go b/pkg/serializables/folder.go
index c7ae0fd..b783e6f 100644
--- a/pkg/serializables/folder.go
+++ b/pkg/serializables/folder.go
@@ -105,6 +105,19 @@ func (folder *Folder) scope(namespace string, location string) {
 	}
 }
 
+// locate gives the path of a file referenced within the folder.
+func (folder *Folder) locate(href string) (string, error) {
+	ret := filepath.Join(folder.Dir, href)
+	rel, err := filepath.Rel(folder.Dir, ret)
+	if err != nil {
+		return "", err
+	}
+	if !filepath.IsLocal(rel) {
+		return "", fmt.Errorf("%s is outside of the folder", href)
+	}
+	return ret, nil
+}
+
 // visit tells whether a schema is reached for the first time.
 func (folder *Folder) visit(location string) bool {
 	folder.wLock.Lock()
@@ -140,7 +153,10 @@ func (folder *Folder) schemaRef(file *InstanceFile) {
 				go DiscoverGlobalSchema(hrefAttr.Value)
 				return
 			}
-			schemaFilePath := filepath.Join(folder.Dir, hrefAttr.Value)
+			schemaFilePath, err := folder.locate(hrefAttr.Value)
+			if err != nil {
+				return
+			}
 			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
 			if err != nil {
 				return
@@ -200,7 +216,10 @@ func (folder *Folder) includeSchema(file *SchemaFile) {
 				go DiscoverGlobalSchema(schemaLocationAttr.Value)
 				return
 			}
-			schemaFilePath := filepath.Join(folder.Dir, schemaLocationAttr.Value)
+			schemaFilePath, err := folder.locate(schemaLocationAttr.Value)
+			if err != nil {
+				return
+			}
 			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
 			if err != nil {
 				return
@@ -265,7 +284,10 @@ func (folder *Folder) importSchema(file *SchemaFile) {
 				go DiscoverGlobalSchema(schemaLocationAttr.Value)
 				return
 			}
-			schemaFilePath := filepath.Join(folder.Dir, schemaLocationAttr.Value)
+			schemaFilePath, err := folder.locate(schemaLocationAttr.Value)
+			if err != nil {
+				return
+			}
 			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
 			if err != nil {
 				return
@@ -339,7 +361,10 @@ func (folder *Folder) linkbaseRefSchema(file *SchemaFile) {
 						go DiscoverGlobalFile(hrefAttr.Value)
 						return
 					}
-					linkbaseFilePath := filepath.Join(folder.Dir, hrefAttr.Value)
+					linkbaseFilePath, err := folder.locate(hrefAttr.Value)
+					if err != nil {
+						return
+					}
 					switch roleAttr.Value {
 					case attr.PresentationLinkbaseRef:
 						discoveredPre, err := ReadPresentationLinkbaseFile(linkbaseFilePath)
-- 
2.43.0


From 93357eb07d15e7e50b42822c4b8debde3f1cc545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:49 +0000
Subject: [PATCH 29/53] fix: keep taxonomy URLs inside the directory of their
 host

---
 pkg/serializables/global.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/serializables/global.go b/pkg/serializables/global.go
index 0402818..a5dfe87 100644
--- a/pkg/serializables/global.go
+++ b/pkg/serializables/global.go
@@ -37,11 +37,19 @@ func UrlToFilename(urlStr string) (string, error) {
 	if len(hostname) <= 0 {
 		return "", fmt.Errorf("empty hostname")
 	}
+	if hostname == "." || hostname == ".." {
+		return "", fmt.Errorf("invalid hostname, %s", hostname)
+	}
 	dest = filepath.Join(dest, hostname)
 	var splits = strings.Split(urlPath.Path, "/")
+	rest := "."
 	for _, split := range splits {
-		dest = filepath.Join(dest, split)
+		rest = filepath.Join(rest, split)
+	}
+	if !filepath.IsLocal(rest) {
+		return "", fmt.Errorf("%s is outside of its host", urlStr)
 	}
+	dest = filepath.Join(dest, rest)
 	return filepath.Join(GlobalTaxonomySetPath, "concepts", dest), nil
 }
 
-- 
2.43.0


From 932cd2c817564b3ee00d22226ac03020df22d461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:33 +0000
Subject: [PATCH 30/53] fix: report taxonomy files that cannot be read

---
 pkg/serializables/global.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/pkg/serializables/global.go b/pkg/serializables/global.go
index a5dfe87..91ec049 100644
--- a/pkg/serializables/global.go
+++ b/pkg/serializables/global.go
@@ -58,17 +58,14 @@ func DiscoverGlobalFile(urlStr string) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	var ret []byte
-	if file, err := os.Stat(dest); err == nil {
-		dirString, _ := filepath.Split(dest)
-		filename := file.Name()
-		globalFilePath := filepath.Join(dirString, filename)
-		ret, err = os.ReadFile(globalFilePath)
-		if err == nil {
-			return ret, nil
-		}
+	file, err := os.Stat(dest)
+	if err != nil {
+		return nil, err
 	}
-	return nil, err
+	dirString, _ := filepath.Split(dest)
+	filename := file.Name()
+	globalFilePath := filepath.Join(dirString, filename)
+	return os.ReadFile(globalFilePath)
 }
 
 func DiscoverGlobalSchema(urlStr string) (*SchemaFile, error) {
-- 
2.43.0


From 9644fe1528792e3a8630263a6909750b763d0542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:30 +0000
Subject: [PATCH 31/53] fix: build the three grids of a network without data
 races

---
 pkg/renderables/renderable.go | 53 +++++++++++------------------------
 1 file changed, 17 insertions(+), 36 deletions(-)

diff --git a/pkg/renderables/renderable.go b/pkg/renderables/renderable.go
index 244c21e..8227b81 100644
--- a/pkg/renderables/renderable.go
+++ b/pkg/renderables/renderable.go
@@ -42,51 +42,35 @@ func MarshalRenderable(slug string, h *hydratables.Hydratable) ([]byte, error) {
 			llinkrole := rset.RoleURI
 			if slug == hash(eentity, llinkrole, rset.Title) {
 				var (
-					p          PGrid
-					d          DGrid
-					c          CGrid
-					labelRoles []LabelRole
-					langs      []Lang
-					err        error
-					wg         sync.WaitGroup
+					p                                     PGrid
+					d                                     DGrid
+					c                                     CGrid
+					pLabelRoles, dLabelRoles, cLabelRoles []LabelRole
+					pLangs, dLangs, cLangs                []Lang
+					pErr, dErr, cErr                      error
+					wg                                    sync.WaitGroup
 				)
 				wg.Add(3)
-				labelRoles = make([]LabelRole, 0, 20)
-				langs = make([]Lang, 0, 8)
 				go func(entity string, linkrole string) {
 					defer wg.Done()
-					localP, lr, ln, localError := pGrid(entity, linkrole, h, h, h, h)
-					if localError != nil {
-						err = localError
-						return
-					}
-					p = localP
-					labelRoles = append(labelRoles, lr...)
-					langs = append(langs, ln...)
+					p, pLabelRoles, pLangs, pErr = pGrid(entity, linkrole, h, h, h, h)
 				}(eentity, llinkrole)
 				go func(entity string, linkrole string) {
 					defer wg.Done()
-					localD, lr, ln, localError := dGrid(entity, linkrole, h, h, h, h)
-					if localError != nil {
-						err = localError
-						return
-					}
-					d = localD
-					labelRoles = append(labelRoles, lr...)
-					langs = append(langs, ln...)
+					d, dLabelRoles, dLangs, dErr = dGrid(entity, linkrole, h, h, h, h)
 				}(eentity, llinkrole)
 				go func(entity string, linkrole string) {
 					defer wg.Done()
-					localC, lr, ln, localError := cGrid(entity, linkrole, h, h, h, h)
-					if localError != nil {
-						err = localError
-						return
-					}
-					c = localC
-					labelRoles = append(labelRoles, lr...)
-					langs = append(langs, ln...)
+					c, cLabelRoles, cLangs, cErr = cGrid(entity, linkrole, h, h, h, h)
 				}(eentity, llinkrole)
 				wg.Wait()
+				for _, err := range []error{pErr, dErr, cErr} {
+					if err != nil {
+						return nil, err
+					}
+				}
+				labelRoles := append(append(pLabelRoles, dLabelRoles...), cLabelRoles...)
+				langs := append(append(pLangs, dLangs...), cLangs...)
 				langs = dedupLang(langs)
 				labelRoles = dedupLabelRole(labelRoles)
 				p, d, c = formatPeriod(p, d, c, langs)
@@ -117,9 +101,6 @@ func MarshalRenderable(slug string, h *hydratables.Hydratable) ([]byte, error) {
 					Lang:       langs,
 					LabelRoles: labelRoles,
 				}
-				if err != nil {
-					return nil, err
-				}
 				return json.Marshal(ret)
 			}
 		}
-- 
2.43.0


From ca1460f804e8ed94feba7bc7c19e0f901f14fb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:55 +0000
Subject: [PATCH 32/53] fix: visit linkbases, sums and typed domains in a fixed
 order

---
 pkg/renderables/calculationGrid.go          |  6 ++++--
 pkg/renderables/dimensionRelationshipSet.go |  3 ++-
 pkg/renderables/effectiveDomainGrid.go      |  3 ++-
 pkg/renderables/label.go                    |  3 ++-
 pkg/renderables/labelPack.go                |  6 ++----
 pkg/renderables/presentationGrid.go         |  3 ++-
 pkg/renderables/typedMember.go              |  4 ++--
 pkg/renderables/utility.go                  | 11 +++++++++++
 8 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/pkg/renderables/calculationGrid.go b/pkg/renderables/calculationGrid.go
index 484648f..6d68e89 100644
--- a/pkg/renderables/calculationGrid.go
+++ b/pkg/renderables/calculationGrid.go
@@ -47,7 +47,8 @@ func cGrid(schemedEntity string, linkroleURI string, h *hydratables.Hydratable,
 func getSummationItems(schemedEntity string, linkroleURI string, h *hydratables.Hydratable,
 	factFinder FactFinder, conceptFinder ConceptFinder, measurementFinder MeasurementFinder) ([]SummationItem, []LabelRole, []Lang) {
 	var calculationLinks []hydratables.CalculationLink
-	for _, calculation := range h.CalculationLinkbases {
+	for _, fileName := range sortedKeys(h.CalculationLinkbases) {
+		calculation := h.CalculationLinkbases[fileName]
 		for _, roleRef := range calculation.RoleRefs {
 			if linkroleURI == roleRef.RoleURI {
 				calculationLinks = calculation.CalculationLinks
@@ -94,7 +95,8 @@ func getSummationItems(schemedEntity string, linkroleURI string, h *hydratables.
 					langs      []Lang
 				)
 				ret := make([]SummationItem, 0, len(cMap))
-				for from, slice := range cMap {
+				for _, from := range sortedKeys(cMap) {
+					slice := cMap[from]
 					contributingConcepts := make([]ContributingConcept, 0, len(slice))
 					fqLabels := make([]string, 0, len(slice)+1)
 					for _, cstruct := range slice {
diff --git a/pkg/renderables/dimensionRelationshipSet.go b/pkg/renderables/dimensionRelationshipSet.go
index da42287..4cb3624 100644
--- a/pkg/renderables/dimensionRelationshipSet.go
+++ b/pkg/renderables/dimensionRelationshipSet.go
@@ -53,7 +53,8 @@ func getDRS(schemedEntity string, linkroleURI string, h *hydratables.Hydratable)
 	links := make([]DRSLink, 0, 20)
 	hrefs := make(map[string]int)
 
-	for _, definition := range h.DefinitionLinkbases {
+	for _, fileName := range sortedKeys(h.DefinitionLinkbases) {
+		definition := h.DefinitionLinkbases[fileName]
 		var definitionLinks []hydratables.DefinitionLink
 		for _, roleRef := range definition.RoleRefs {
 			if linkroleURI == roleRef.RoleURI {
diff --git a/pkg/renderables/effectiveDomainGrid.go b/pkg/renderables/effectiveDomainGrid.go
index 6e3f6cd..ae25e25 100644
--- a/pkg/renderables/effectiveDomainGrid.go
+++ b/pkg/renderables/effectiveDomainGrid.go
@@ -63,7 +63,8 @@ func getRootDomains(schemedEntity string, linkroleURI string, h *hydratables.Hyd
 	labelRoles := []LabelRole{}
 	langs := []Lang{}
 	labelPacks := make([]LabelPack, 0, 100)
-	for _, definition := range h.DefinitionLinkbases {
+	for _, fileName := range sortedKeys(h.DefinitionLinkbases) {
+		definition := h.DefinitionLinkbases[fileName]
 		var definitionLinks []hydratables.DefinitionLink
 		for _, roleRef := range definition.RoleRefs {
 			if linkroleURI == roleRef.RoleURI {
diff --git a/pkg/renderables/label.go b/pkg/renderables/label.go
index ee07b3d..6281144 100644
--- a/pkg/renderables/label.go
+++ b/pkg/renderables/label.go
@@ -21,7 +21,8 @@ func GetLabel(h *hydratables.Hydratable, href string) LabelPack {
 
 func appendLabelModifiersFromHref(labelPack LabelPack, h *hydratables.Hydratable, href string) LabelPack {
 	ret := labelPack
-	for _, labels := range h.LabelLinkbases {
+	for _, fileName := range sortedKeys(h.LabelLinkbases) {
+		labels := h.LabelLinkbases[fileName]
 		for _, labelLink := range labels.LabelLink {
 			for _, loc := range labelLink.Locs {
 				if loc.Href == href {
diff --git a/pkg/renderables/labelPack.go b/pkg/renderables/labelPack.go
index caf6cb6..c588a3b 100644
--- a/pkg/renderables/labelPack.go
+++ b/pkg/renderables/labelPack.go
@@ -52,11 +52,9 @@ func reduce(labelPacks []LabelPack) *LabelPack {
 func destruct(labelPack LabelPack) ([]LabelRole, []Lang) {
 	labelRoles := make([]LabelRole, 0, 20)
 	langs := make([]Lang, 0, 8)
-	for labelRole, langPack := range labelPack {
+	for _, labelRole := range sortedKeys(labelPack) {
 		labelRoles = append(labelRoles, labelRole)
-		for lang := range langPack {
-			langs = append(langs, lang)
-		}
+		langs = append(langs, sortedKeys(labelPack[labelRole])...)
 	}
 	return labelRoles, langs
 }
diff --git a/pkg/renderables/presentationGrid.go b/pkg/renderables/presentationGrid.go
index 6cc34a8..f501d7f 100644
--- a/pkg/renderables/presentationGrid.go
+++ b/pkg/renderables/presentationGrid.go
@@ -70,7 +70,8 @@ func pArcs(pArcs []hydratables.PresentationArc) []myarcs.Arc {
 
 func getIndentedLabels(linkroleURI string, h *hydratables.Hydratable) ([]IndentedLabel, []LabelPack) {
 	labelPacks := make([]LabelPack, 0, 100)
-	for _, presentation := range h.PresentationLinkbases {
+	for _, fileName := range sortedKeys(h.PresentationLinkbases) {
+		presentation := h.PresentationLinkbases[fileName]
 		var presentationLinks []hydratables.PresentationLink
 		for _, roleRef := range presentation.RoleRefs {
 			if linkroleURI == roleRef.RoleURI {
diff --git a/pkg/renderables/typedMember.go b/pkg/renderables/typedMember.go
index aaf84ba..fa4789f 100644
--- a/pkg/renderables/typedMember.go
+++ b/pkg/renderables/typedMember.go
@@ -27,7 +27,7 @@ func getTypedMember(typedMember hydratables.TypedMember, dimension Dimension,
 	labelPacks := []LabelPack{
 		dimension.Label,
 	}
-	for typedDomain, typedMember := range typedMember.TypedMembersMap {
+	for _, typedDomain := range sortedKeys(typedMember.TypedMembersMap) {
 		typedDomainLabel := GetLabel(h, typedDomain)
 		labelPacks = append(labelPacks, typedDomainLabel)
 		ret = append(ret, RelevantMember{
@@ -36,7 +36,7 @@ func getTypedMember(typedMember hydratables.TypedMember, dimension Dimension,
 				Href:  typedDomain,
 				Label: typedDomainLabel,
 			},
-			TypedMember: typedMember,
+			TypedMember: typedMember.TypedMembersMap[typedDomain],
 		})
 	}
 	return ret, arcs, labelPacks
diff --git a/pkg/renderables/utility.go b/pkg/renderables/utility.go
index 38232a3..68590c8 100644
--- a/pkg/renderables/utility.go
+++ b/pkg/renderables/utility.go
@@ -1,5 +1,16 @@
 package renderables
 
+import "sort"
+
+func sortedKeys[K ~string, V any](m map[K]V) []K {
+	ret := make([]K, 0, len(m))
+	for key := range m {
+		ret = append(ret, key)
+	}
+	sort.Slice(ret, func(i, j int) bool { return ret[i] < ret[j] })
+	return ret
+}
+
 func stringInSlice(a string, list []string) bool {
 	for _, b := range list {
 		if b == a {
-- 
2.43.0


From b47de6686345883166aa0ea8d23799ccaa8f607e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:30 +0000
Subject: [PATCH 33/53] fix: do not cache failed requests

---
 pkg/cache/cache.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/cache/cache.go b/pkg/cache/cache.go
index a0cdfd3..1162cde 100644
--- a/pkg/cache/cache.go
+++ b/pkg/cache/cache.go
@@ -49,6 +49,9 @@ func MarshalExpressable(id string, name string, contextref string) ([]byte, erro
 	}
 	lock.RUnlock()
 	byteArr, err := renderables.MarshalExpressable(name, contextref, h)
+	if err != nil {
+		return nil, err
+	}
 	go func() {
 		if dry {
 			return
@@ -91,6 +94,9 @@ func MarshalRenderable(id string, hash string) ([]byte, error) {
 		}
 	}
 	byteArr, err := renderables.MarshalRenderable(hash, h)
+	if err != nil {
+		return nil, err
+	}
 	go func() {
 		if dry {
 			return
@@ -117,6 +123,9 @@ func MarshalCatalog(id string) ([]byte, error) {
 	}
 	lock.RUnlock()
 	byteArr, err := renderables.MarshalCatalog(h)
+	if err != nil {
+		return nil, err
+	}
 	go func() {
 		if dry {
 			return
@@ -143,6 +152,9 @@ func hydratable(id string) (*hydratables.Hydratable, error) {
 		return nil, fmt.Errorf("failed to discover folder, %v", err)
 	}
 	ret, err := hydratables.Hydrate(folder)
+	if err != nil {
+		return nil, err
+	}
 	go func() {
 		if dry {
 			return
-- 
2.43.0


From 3cb1362b9af6bf8c5028ae183d31167113b02698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:58:19 +0000
Subject: [PATCH 34/53] fix: keep cache entries of different requests apart

---
 pkg/cache/cache.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/pkg/cache/cache.go b/pkg/cache/cache.go
index 1162cde..1a5cb67 100644
--- a/pkg/cache/cache.go
+++ b/pkg/cache/cache.go
@@ -1,9 +1,7 @@
 package cache
 
 import (
-	"encoding/hex"
 	"fmt"
-	"hash/fnv"
 	"path/filepath"
 	"sync"
 
@@ -36,9 +34,7 @@ func MarshalExpressable(id string, name string, contextref string) ([]byte, erro
 	if err != nil {
 		return nil, err
 	}
-	hash := fnv.New128a()
-	hash.Write([]byte(id + "/facts/" + name + ":" + contextref))
-	cachekey := hex.EncodeToString(hash.Sum([]byte{}))
+	cachekey := key("fact", id, name, contextref)
 	lock.RLock()
 	if !dry {
 		if x, found := appCache.Get(cachekey); found {
@@ -64,9 +60,10 @@ func MarshalExpressable(id string, name string, contextref string) ([]byte, erro
 }
 
 func MarshalRenderable(id string, hash string) ([]byte, error) {
+	cachekey := key("network", id, hash)
 	lock.RLock()
 	if !dry {
-		if x, found := appCache.Get(id + "/" + hash); found {
+		if x, found := appCache.Get(cachekey); found {
 			ret := x.([]byte)
 			lock.RUnlock()
 			return ret, nil
@@ -88,7 +85,7 @@ func MarshalRenderable(id string, hash string) ([]byte, error) {
 			go func() {
 				lock.Lock()
 				defer lock.Unlock()
-				appCache.Set(id+"/"+hash, data, gocache.DefaultExpiration)
+				appCache.Set(cachekey, data, gocache.DefaultExpiration)
 			}()
 			return data, nil
 		}
@@ -103,19 +100,20 @@ func MarshalRenderable(id string, hash string) ([]byte, error) {
 		}
 		lock.Lock()
 		defer lock.Unlock()
-		appCache.Set(id+"/"+hash, byteArr, gocache.DefaultExpiration)
+		appCache.Set(cachekey, byteArr, gocache.DefaultExpiration)
 	}()
 	return byteArr, err
 }
 
 func MarshalCatalog(id string) ([]byte, error) {
+	cachekey := key("catalog", id)
 	h, err := hydratable(id)
 	if err != nil {
 		return nil, err
 	}
 	lock.RLock()
 	if !dry {
-		if x, found := appCache.Get(id + "/"); found {
+		if x, found := appCache.Get(cachekey); found {
 			ret := x.([]byte)
 			lock.RUnlock()
 			return ret, nil
@@ -132,15 +130,21 @@ func MarshalCatalog(id string) ([]byte, error) {
 		}
 		lock.Lock()
 		defer lock.Unlock()
-		appCache.Set(id+"/", byteArr, gocache.DefaultExpiration)
+		appCache.Set(cachekey, byteArr, gocache.DefaultExpiration)
 	}()
 	return byteArr, err
 }
 
+// key keeps entries of different kinds and requests apart in the cache.
+func key(parts ...string) string {
+	return fmt.Sprintf("%q", parts)
+}
+
 func hydratable(id string) (*hydratables.Hydratable, error) {
+	cachekey := key("folder", id)
 	lock.RLock()
 	if !dry {
-		if x, found := appCache.Get(id); found {
+		if x, found := appCache.Get(cachekey); found {
 			ret := x.(*hydratables.Hydratable)
 			lock.RUnlock()
 			return ret, nil
@@ -161,7 +165,7 @@ func hydratable(id string) (*hydratables.Hydratable, error) {
 		}
 		lock.Lock()
 		defer lock.Unlock()
-		appCache.Set(id, ret, gocache.DefaultExpiration)
+		appCache.Set(cachekey, ret, gocache.DefaultExpiration)
 	}()
 	return ret, err
 }
-- 
2.43.0


From 4f1adae34e1843a2fc1ca74442046b45f50d4749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:30 +0000
Subject: [PATCH 35/53] fix: keep the unit registry apart from a schema of the
 same URL

---
 pkg/hydratables/measurement.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/hydratables/measurement.go b/pkg/hydratables/measurement.go
index 2c76aca..6e0f89c 100644
--- a/pkg/hydratables/measurement.go
+++ b/pkg/hydratables/measurement.go
@@ -4,7 +4,6 @@ import (
 	"encoding/xml"
 	"fmt"
 
-	"ecksbee.com/telefacts/pkg/attr"
 	"ecksbee.com/telefacts/pkg/serializables"
 	gocache "github.com/patrickmn/go-cache"
 )
@@ -52,12 +51,12 @@ type Measurement struct {
 type UnitTypeRegistry map[string]map[string]Measurement
 
 func HydrateUnitTypeRegistry() (*UnitTypeRegistry, error) {
-	urlStr := attr.UTR
+	key := "utr.xml"
 	if globalCache == nil {
 		return nil, fmt.Errorf("no accessible cache")
 	}
 	lock.RLock()
-	if x, found := globalCache.Get(urlStr); found {
+	if x, found := globalCache.Get(key); found {
 		ret := x.(UnitTypeRegistry)
 		lock.RUnlock()
 		return &ret, nil
@@ -71,7 +70,7 @@ func HydrateUnitTypeRegistry() (*UnitTypeRegistry, error) {
 	go func() {
 		lock.Lock()
 		defer lock.Unlock()
-		globalCache.Set(urlStr, utr, gocache.DefaultExpiration)
+		globalCache.Set(key, utr, gocache.DefaultExpiration)
 	}()
 	return &utr, err
 }
-- 
2.43.0


From 90528b9faa947ce819a3160859741973a32cd716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:04 +0000
Subject: [PATCH 36/53] fix: skip contexts without an entity

---
 pkg/hydratables/instance.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/hydratables/instance.go b/pkg/hydratables/instance.go
index b54f7f8..b65402b 100644
--- a/pkg/hydratables/instance.go
+++ b/pkg/hydratables/instance.go
@@ -134,6 +134,9 @@ func hydrateContexts(instanceFile *serializables.InstanceFile, h *Hydratable) []
 		}
 		item.ID = idAttr.Value
 		newEntity := Entity{}
+		if len(context.Entity) <= 0 {
+			continue
+		}
 		entity := context.Entity[0]
 		if len(entity.Identifier) <= 0 {
 			continue
-- 
2.43.0


From e95898d0f07034a82f9df1b268961c8ca3d65a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:07 +0000
Subject: [PATCH 37/53] fix: skip typed members whose domain is not declared

---
 pkg/hydratables/instance.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/hydratables/instance.go b/pkg/hydratables/instance.go
index b65402b..ea9696e 100644
--- a/pkg/hydratables/instance.go
+++ b/pkg/hydratables/instance.go
@@ -351,6 +351,9 @@ func hydrateTypedMembers(dimensionHref string, typedMember string, instanceFile
 		if err == io.EOF {
 			break
 		}
+		if err != nil {
+			return nil, nil
+		}
 		switch token.(type) {
 		case xml.StartElement:
 			startElem, ok := token.(xml.StartElement)
@@ -360,7 +363,7 @@ func hydrateTypedMembers(dimensionHref string, typedMember string, instanceFile
 					continue
 				}
 				currHref, curr, err := h.NameQuery(startElemName.Space, startElemName.Local)
-				if err != nil {
+				if err != nil || curr == nil {
 					return nil, nil
 				}
 				order++
-- 
2.43.0


From fdc9bc64d79d8232cff4a18b0c9a129679e5cf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:30 +0000
Subject: [PATCH 38/53] fix: skip facts whose context is missing

---
 pkg/renderables/contexts.go    | 3 +++
 pkg/renderables/expressable.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/renderables/contexts.go b/pkg/renderables/contexts.go
index f1e311c..ae33e94 100644
--- a/pkg/renderables/contexts.go
+++ b/pkg/renderables/contexts.go
@@ -214,6 +214,9 @@ func getRelevantContexts(schemedEntity string, h *hydratables.Hydratable,
 				}
 				if factualEdgeHref == fact.Href {
 					context := getContext(&instance, fact.ContextRef)
+					if context == nil {
+						continue
+					}
 					entity := context.Entity
 					contextualSchemedEntity := entity.Identifier.Scheme + "/" + entity.Identifier.CharData
 					if contextualSchemedEntity == schemedEntity {
diff --git a/pkg/renderables/expressable.go b/pkg/renderables/expressable.go
index a7fbfc5..da9d371 100644
--- a/pkg/renderables/expressable.go
+++ b/pkg/renderables/expressable.go
@@ -45,6 +45,9 @@ func MarshalExpressable(name string, contextref string, h *hydratables.Hydratabl
 		return nil, nil
 	}
 	context := getContext(extracted, contextref)
+	if context == nil {
+		return nil, nil
+	}
 	period := periodMultilingualString(labels, context)
 	members, segment, scenario, _ := getContextualMembers(context, h)
 	expressedContexts := []relevantContext{
-- 
2.43.0


From e339ae4b4fbb7c53e1389fd7dd09c51194700a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:33 +0000
Subject: [PATCH 39/53] fix: skip inline facts without a name or context
 reference

---
 pkg/hydratables/document.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/hydratables/document.go b/pkg/hydratables/document.go
index a54e030..9d2ea81 100644
--- a/pkg/hydratables/document.go
+++ b/pkg/hydratables/document.go
@@ -37,6 +37,9 @@ func HydrateDocument(folder *serializables.Folder) (*Document, error) {
 			}
 			name := attr.FindXpathAttr(nonNumeric.Attr, "name")
 			contextRef := attr.FindXpathAttr(nonNumeric.Attr, "contextRef")
+			if name == nil || contextRef == nil {
+				return
+			}
 			xmlName, err := np.ProvideXmlName(name.Value)
 			if err != nil {
 				goErr = err
@@ -64,6 +67,9 @@ func HydrateDocument(folder *serializables.Folder) (*Document, error) {
 			}
 			name := attr.FindXpathAttr(nonFraction.Attr, "name")
 			contextRef := attr.FindXpathAttr(nonFraction.Attr, "contextRef")
+			if name == nil || contextRef == nil {
+				return
+			}
 			xmlName, err := np.ProvideXmlName(name.Value)
 			if err != nil {
 				goErr2 = err
-- 
2.43.0


From dde70b9d235471170823d53bb0d21c5f438c0cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:37 +0000
Subject: [PATCH 40/53] fix: accept inline fact names without a prefix

---
 pkg/attr/name.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/attr/name.go b/pkg/attr/name.go
index e6c56b2..0f891b5 100644
--- a/pkg/attr/name.go
+++ b/pkg/attr/name.go
@@ -46,7 +46,7 @@ func (np *NameProvider) ProvideXmlName(prefixed string) (*xml.Name, error) {
 	if i < 0 {
 		return &xml.Name{
 			Space: "",
-			Local: prefixed[i:],
+			Local: prefixed,
 		}, nil
 	}
 	prefix := prefix(prefixed[:i])
-- 
2.43.0


From 198ef514f847150626cb23c2f60de9834604c15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:26 +0000
Subject: [PATCH 41/53] fix: show infinite and very large numbers without
 crashing

---
 pkg/renderables/fact.go | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/pkg/renderables/fact.go b/pkg/renderables/fact.go
index 926d1c8..b0cef59 100644
--- a/pkg/renderables/fact.go
+++ b/pkg/renderables/fact.go
@@ -2,7 +2,7 @@ package renderables
 
 import (
 	"fmt"
-	"math/big"
+	"strconv"
 	"strings"
 
 	"ecksbee.com/telefacts/pkg/attr"
@@ -72,12 +72,7 @@ func renderPercent(value string, precision hydratables.Precision, g rune) (*Fact
 		}
 		return renderNumeric(percent, precision, g)
 	}
-	f, _, err := big.ParseFloat(value, 10, digits.PREC_BITS, big.ToZero)
-	if err != nil {
-		return nil, fmt.Errorf("failed to convert fact to numeric expression")
-	}
-	percent := f.Mul(f, big.NewFloat(100).SetPrec(digits.PREC_BITS)).Text('f', -1)
-	return renderNumeric(percent, precision, g)
+	return nil, fmt.Errorf("failed to convert fact to numeric expression")
 }
 
 func renderNumeric(value string, precision hydratables.Precision, g rune) (*FactExpression, error) {
@@ -85,27 +80,39 @@ func renderNumeric(value string, precision hydratables.Precision, g rune) (*Fact
 	if integer, fraction, ok := plainDecimal(value); ok {
 		return renderDecimal(strings.HasPrefix(value, "-"), integer, fraction, p, g), nil
 	}
-	digit, err := digits.New(p, value, g, digits.PreserveUpToHundredth)
-	if err != nil {
-		return nil, fmt.Errorf("failed to convert fact to numeric expression")
-	}
-	return &FactExpression{
-		Head: digit.Head(),
-		Core: digit.Core(),
-		Tail: digit.Tail(),
-	}, nil
+	return nil, fmt.Errorf("failed to convert fact to numeric expression")
 }
 
-// plainDecimal splits a number that is written with digits only.
+// maximumExponent is the largest exponent of a double.
+const maximumExponent = 308
+
+// plainDecimal splits a number into its digits before and after the point.
 func plainDecimal(value string) (string, string, bool) {
 	number := value
 	if strings.HasPrefix(number, "-") || strings.HasPrefix(number, "+") {
 		number = number[1:]
 	}
+	exponent := 0
+	if i := strings.IndexAny(number, "eE"); i >= 0 {
+		var err error
+		exponent, err = strconv.Atoi(number[i+1:])
+		if err != nil || exponent > maximumExponent || exponent < -maximumExponent {
+			return "", "", false
+		}
+		number = number[:i]
+	}
 	integer, fraction, _ := strings.Cut(number, ".")
 	if integer+fraction == "" || strings.Trim(integer+fraction, "0123456789") != "" {
 		return "", "", false
 	}
+	if exponent > 0 {
+		fraction += strings.Repeat("0", exponent)
+		integer, fraction = integer+fraction[:exponent], fraction[exponent:]
+	}
+	if exponent < 0 {
+		integer = strings.Repeat("0", -exponent) + integer
+		integer, fraction = integer[:len(integer)+exponent], integer[len(integer)+exponent:]+fraction
+	}
 	return strings.TrimLeft(integer, "0"), strings.TrimRight(fraction, "0"), true
 }
 
-- 
2.43.0


From bc41d7942e3555ff60f32b6a4d53e720612692c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:08 +0000
Subject: [PATCH 42/53] fix: query inline documents without data races

---
 pkg/serializables/document.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pkg/serializables/document.go b/pkg/serializables/document.go
index e535dfb..57dfa06 100644
--- a/pkg/serializables/document.go
+++ b/pkg/serializables/document.go
@@ -33,10 +33,10 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 		return nil
 	}
 	var html *xmlquery.Node
-	var goErr error
 	htmlDone := make(chan bool)
 	go func() {
 		defer func() { htmlDone <- true }()
+		var goErr error
 		html, goErr = xmlquery.Query(doc, "//*[local-name()='html']")
 		if html == nil {
 			fmt.Println("Error: missing html")
@@ -50,6 +50,7 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	schemaRefsDone := make(chan bool)
 	go func() {
 		defer func() { schemaRefsDone <- true }()
+		var goErr error
 		schemaRefs, goErr = xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='schemaRef' and namespace-uri()='"+attr.LINK+"']")
 		if goErr != nil {
 			schemaRefs = make([]*xmlquery.Node, 0)
@@ -60,7 +61,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	contextsDone := make(chan bool)
 	go func() {
 		defer func() { contextsDone <- true }()
-		contexts, err = xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='resources' and namespace-uri()='"+attr.IX+"']//*[local-name()='context' and namespace-uri()='"+attr.XBRLI+"']")
+		var goErr error
+		contexts, goErr = xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='resources' and namespace-uri()='"+attr.IX+"']//*[local-name()='context' and namespace-uri()='"+attr.XBRLI+"']")
 		if goErr != nil {
 			contexts = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -70,7 +72,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	unitsDone := make(chan bool)
 	go func() {
 		defer func() { unitsDone <- true }()
-		units, err = xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='resources' and namespace-uri()='"+attr.IX+"']//*[local-name()='unit' and namespace-uri()='"+attr.XBRLI+"']")
+		var goErr error
+		units, goErr = xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='resources' and namespace-uri()='"+attr.IX+"']//*[local-name()='unit' and namespace-uri()='"+attr.XBRLI+"']")
 		if goErr != nil {
 			units = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -80,7 +83,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	nonFractionsDone := make(chan bool)
 	go func() {
 		defer func() { nonFractionsDone <- true }()
-		nonFractions, err = xmlquery.QueryAll(doc, "//*[local-name()='nonFraction' and namespace-uri()='"+attr.IX+"']")
+		var goErr error
+		nonFractions, goErr = xmlquery.QueryAll(doc, "//*[local-name()='nonFraction' and namespace-uri()='"+attr.IX+"']")
 		if goErr != nil {
 			nonFractions = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -90,7 +94,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	nonNumericsDone := make(chan bool)
 	go func() {
 		defer func() { nonNumericsDone <- true }()
-		nonNumerics, err = xmlquery.QueryAll(doc, "//*[local-name()='nonNumeric' and namespace-uri()='"+attr.IX+"']")
+		var goErr error
+		nonNumerics, goErr = xmlquery.QueryAll(doc, "//*[local-name()='nonNumeric' and namespace-uri()='"+attr.IX+"']")
 		if goErr != nil {
 			nonNumerics = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -100,7 +105,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	excludesDone := make(chan bool)
 	go func() {
 		defer func() { excludesDone <- true }()
-		excludes, err = xmlquery.QueryAll(doc, "//*[local-name()='exclude' and namespace-uri()='"+attr.IX+"']")
+		var goErr error
+		excludes, goErr = xmlquery.QueryAll(doc, "//*[local-name()='exclude' and namespace-uri()='"+attr.IX+"']")
 		if goErr != nil {
 			excludes = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -110,7 +116,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	footnoteRelationshipsDone := make(chan bool)
 	go func() {
 		defer func() { footnoteRelationshipsDone <- true }()
-		footnoteRelationships, err = xmlquery.QueryAll(doc, "//*[local-name()='relationship' and namespace-uri()='"+attr.IX+"' and @arcrole='"+attr.FactFootnoteArcrole+"']")
+		var goErr error
+		footnoteRelationships, goErr = xmlquery.QueryAll(doc, "//*[local-name()='relationship' and namespace-uri()='"+attr.IX+"' and @arcrole='"+attr.FactFootnoteArcrole+"']")
 		if goErr != nil {
 			footnoteRelationships = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
-- 
2.43.0


From 80b4611ede55bb9c4870856b5822e2fd31008a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:11 +0000
Subject: [PATCH 43/53] fix: collect inline fact names without data races

---
 pkg/hydratables/document.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pkg/hydratables/document.go b/pkg/hydratables/document.go
index 9d2ea81..96a73d6 100644
--- a/pkg/hydratables/document.go
+++ b/pkg/hydratables/document.go
@@ -32,23 +32,20 @@ func HydrateDocument(folder *serializables.Folder) (*Document, error) {
 	for _, nnonNumeric := range source.NonNumerics {
 		go func(nonNumeric *xmlquery.Node) {
 			defer wg1.Done()
-			if goErr != nil {
-				return
-			}
 			name := attr.FindXpathAttr(nonNumeric.Attr, "name")
 			contextRef := attr.FindXpathAttr(nonNumeric.Attr, "contextRef")
 			if name == nil || contextRef == nil {
 				return
 			}
 			xmlName, err := np.ProvideXmlName(name.Value)
+			lock1.Lock()
+			defer lock1.Unlock()
 			if err != nil {
 				goErr = err
 				return
 			}
-			lock1.Lock()
 			nret[name.Value] = *xmlName
 			cret[contextRef.Value] = true
-			lock1.Unlock()
 		}(nnonNumeric)
 	}
 	wg1.Wait()
@@ -62,23 +59,20 @@ func HydrateDocument(folder *serializables.Folder) (*Document, error) {
 	for _, nnonFraction := range source.NonFractions {
 		go func(nonFraction *xmlquery.Node) {
 			defer wg2.Done()
-			if goErr2 != nil {
-				return
-			}
 			name := attr.FindXpathAttr(nonFraction.Attr, "name")
 			contextRef := attr.FindXpathAttr(nonFraction.Attr, "contextRef")
 			if name == nil || contextRef == nil {
 				return
 			}
 			xmlName, err := np.ProvideXmlName(name.Value)
+			lock2.Lock()
+			defer lock2.Unlock()
 			if err != nil {
 				goErr2 = err
 				return
 			}
-			lock2.Lock()
 			nret[name.Value] = *xmlName
 			cret[contextRef.Value] = true
-			lock2.Unlock()
 		}(nnonFraction)
 	}
 	wg2.Wait()
-- 
2.43.0


From fb870fe0c9464677c967916892c617f82cd42ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:26 +0000
Subject: [PATCH 44/53] fix: replace a taken prefix more than twenty-six times

---
 pkg/attr/name.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/attr/name.go b/pkg/attr/name.go
index 0f891b5..483a1c5 100644
--- a/pkg/attr/name.go
+++ b/pkg/attr/name.go
@@ -149,5 +149,5 @@ func toChar(i int) string {
 	if i < len(arr) {
 		return arr[i]
 	}
-	return arr[len(arr)-1] + toChar(i-len(arr)-1)
+	return arr[len(arr)-1] + toChar(i-len(arr))
 }
-- 
2.43.0


From dfdc09c718054951ec2d631c7050b53f5bb95f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:32 +0000
Subject: [PATCH 45/53] fix: report a folder whose metadata could not be
 written to the end

---
 pkg/serializables/underscore.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/serializables/underscore.go b/pkg/serializables/underscore.go
index 86e0d8c..8460906 100644
--- a/pkg/serializables/underscore.go
+++ b/pkg/serializables/underscore.go
@@ -57,10 +57,15 @@ func NewFolder(key string, underscore Underscore) (string, error) {
 		return "", err
 	}
 	meta := filepath.Join(pathStr, "_")
-	file, _ := os.OpenFile(meta, os.O_CREATE|os.O_WRONLY, 0755)
-	defer file.Close()
+	file, err := os.OpenFile(meta, os.O_CREATE|os.O_WRONLY, 0755)
+	if err != nil {
+		return "", err
+	}
 	encoder := json.NewEncoder(file)
 	err = encoder.Encode(underscore)
+	if cerr := file.Close(); err == nil {
+		err = cerr
+	}
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 7a1a7d7492d2c88e8bd8b557c34249d52b3093da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:59:30 +0000
Subject: [PATCH 46/53] fix: show a number with white space around it like the
 number itself

---
 pkg/renderables/fact.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/renderables/fact.go b/pkg/renderables/fact.go
index b0cef59..aa3366a 100644
--- a/pkg/renderables/fact.go
+++ b/pkg/renderables/fact.go
@@ -53,6 +53,7 @@ func render(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFinder, lang
 }
 
 func SigFigs(value string, precision hydratables.Precision, concept *hydratables.Concept, g rune) (*FactExpression, error) {
+	value = strings.TrimSpace(value)
 	isPercent := concept.Type.Space == attr.NUM &&
 		concept.Type.Local == attr.PercentItemType
 	if isPercent {
-- 
2.43.0


From 3ebfd14b231da4a333df4011e14878168404aff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:55 +0000
Subject: [PATCH 47/53] fix: resolve names with white space around them

---
 pkg/attr/attr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/attr/attr.go b/pkg/attr/attr.go
index 79d62de..b99f76d 100644
--- a/pkg/attr/attr.go
+++ b/pkg/attr/attr.go
@@ -26,6 +26,7 @@ func FindXpathAttr(attrs []xmlquery.Attr, attr string) *xmlquery.Attr {
 }
 
 func Xmlns(attrs []xml.Attr, prefixedName string) xml.Name {
+	prefixedName = strings.TrimSpace(prefixedName)
 	i := strings.IndexRune(prefixedName, ':')
 	if i < 0 {
 		xmlnsAttr := FindAttr(attrs, `xmlns`)
-- 
2.43.0


From 404422e50b3aa01a77fe996b97f4755709dfc5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:00 +0000
Subject: [PATCH 48/53] fix: take an entity identifier with white space around
 it for the same entity

---
 pkg/hydratables/instance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/hydratables/instance.go b/pkg/hydratables/instance.go
index ea9696e..60b3c2f 100644
--- a/pkg/hydratables/instance.go
+++ b/pkg/hydratables/instance.go
@@ -148,7 +148,7 @@ func hydrateContexts(instanceFile *serializables.InstanceFile, h *Hydratable) []
 		if schemeAttr == nil {
 			continue
 		}
-		newEntity.Identifier.CharData = entity.Identifier[0].CharData
+		newEntity.Identifier.CharData = strings.TrimSpace(entity.Identifier[0].CharData)
 		newEntity.Identifier.Scheme = schemeAttr.Value
 		if len(entity.Segment) > 0 {
 			segment := DimensionContext{}
-- 
2.43.0


From 8fe1a8a3db532e48ca41af8eeb76f96819fcdb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:05 +0000
Subject: [PATCH 49/53] fix: read dates with white space around them

---
 pkg/hydratables/instance.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/hydratables/instance.go b/pkg/hydratables/instance.go
index 60b3c2f..9fa4b8b 100644
--- a/pkg/hydratables/instance.go
+++ b/pkg/hydratables/instance.go
@@ -233,14 +233,14 @@ func hydrateContexts(instanceFile *serializables.InstanceFile, h *Hydratable) []
 		if len(context.Period) > 0 {
 			if len(context.Period[0].Instant) > 0 {
 				instant := Instant{
-					CharData: context.Period[0].Instant[0].CharData,
+					CharData: strings.TrimSpace(context.Period[0].Instant[0].CharData),
 				}
 				item.Period.Instant = instant
 			}
 			if len(context.Period[0].StartDate) > 0 && len(context.Period[0].EndDate) > 0 {
 				duration := Duration{
-					StartDate: context.Period[0].StartDate[0].CharData,
-					EndDate:   context.Period[0].EndDate[0].CharData,
+					StartDate: strings.TrimSpace(context.Period[0].StartDate[0].CharData),
+					EndDate:   strings.TrimSpace(context.Period[0].EndDate[0].CharData),
 				}
 				item.Period.Duration = duration
 			}
-- 
2.43.0


From 07f8b62c68f5f40e1304ce2f287080bd90965969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:40 +0000
Subject: [PATCH 50/53] fix: keep all text of a typed member that has comments
 or CDATA sections in it

---
 pkg/hydratables/instance.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pkg/hydratables/instance.go b/pkg/hydratables/instance.go
index 9fa4b8b..45a58cd 100644
--- a/pkg/hydratables/instance.go
+++ b/pkg/hydratables/instance.go
@@ -366,6 +366,7 @@ func hydrateTypedMembers(dimensionHref string, typedMember string, instanceFile
 				if err != nil || curr == nil {
 					return nil, nil
 				}
+				delete(retMap, currHref)
 				order++
 				stack.Push(curr)
 				arcs = append(arcs, TypedDomainArc{
@@ -397,18 +398,26 @@ func hydrateTypedMembers(dimensionHref string, typedMember string, instanceFile
 		case xml.CharData:
 			charData, ok := token.(xml.CharData)
 			if ok {
-				str := strings.TrimSpace(string(charData))
-				if str == "" {
-					continue
-				}
+				str := string(charData)
 				typedDomainHref, _, err := h.NameQuery(prev.XMLName.Space, prev.XMLName.Local)
 				if err != nil {
+					if strings.TrimSpace(str) == "" {
+						continue
+					}
 					return nil, nil
 				}
-				retMap[typedDomainHref] = str
+				retMap[typedDomainHref] += str
 			}
 		}
 	}
+	for typedDomainHref, str := range retMap {
+		str = strings.TrimSpace(str)
+		if str == "" {
+			delete(retMap, typedDomainHref)
+			continue
+		}
+		retMap[typedDomainHref] = str
+	}
 	return retMap, arcs
 }
 
-- 
2.43.0


From ad134c6e0822e69b8d84e6776f981d9a9cf84c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:14 +0000
Subject: [PATCH 51/53] fix: take an arc without an order as an arc of order 1

---
 pkg/hydratables/calculationLinkbase.go  | 8 ++++++--
 pkg/hydratables/definitionLinkbase.go   | 8 ++++++--
 pkg/hydratables/presentationLinkbase.go | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/pkg/hydratables/calculationLinkbase.go b/pkg/hydratables/calculationLinkbase.go
index 540afed..69b013b 100644
--- a/pkg/hydratables/calculationLinkbase.go
+++ b/pkg/hydratables/calculationLinkbase.go
@@ -109,7 +109,11 @@ func hydrateCalculationLink(linkbaseFile *serializables.CalculationLinkbaseFile)
 				continue
 			}
 			orderAttr := attr.FindAttr(arc.XMLAttrs, "order")
-			if orderAttr == nil || orderAttr.Value == "" {
+			orderValue := "1"
+			if orderAttr != nil {
+				orderValue = orderAttr.Value
+			}
+			if orderValue == "" {
 				continue
 			}
 			arcroleAttr := attr.FindAttr(arc.XMLAttrs, "arcrole")
@@ -128,7 +132,7 @@ func hydrateCalculationLink(linkbaseFile *serializables.CalculationLinkbaseFile)
 			if weightAttr == nil || weightAttr.Value == "" {
 				continue
 			}
-			order, err := strconv.ParseFloat(orderAttr.Value, 64)
+			order, err := strconv.ParseFloat(orderValue, 64)
 			if err != nil {
 				order = math.MaxFloat64
 			}
diff --git a/pkg/hydratables/definitionLinkbase.go b/pkg/hydratables/definitionLinkbase.go
index 27b1b76..999c0f9 100644
--- a/pkg/hydratables/definitionLinkbase.go
+++ b/pkg/hydratables/definitionLinkbase.go
@@ -112,7 +112,11 @@ func hydrateDefinitionLink(linkbaseFile *serializables.DefinitionLinkbaseFile) [
 				continue
 			}
 			orderAttr := attr.FindAttr(arc.XMLAttrs, "order")
-			if orderAttr == nil || orderAttr.Value == "" {
+			orderValue := "1"
+			if orderAttr != nil {
+				orderValue = orderAttr.Value
+			}
+			if orderValue == "" {
 				continue
 			}
 			arcroleAttr := attr.FindAttr(arc.XMLAttrs, "arcrole")
@@ -128,7 +132,7 @@ func hydrateDefinitionLink(linkbaseFile *serializables.DefinitionLinkbaseFile) [
 				continue
 			}
 			newArc.Arcrole = arcroleAttr.Value
-			order, err := strconv.ParseFloat(orderAttr.Value, 64)
+			order, err := strconv.ParseFloat(orderValue, 64)
 			if err != nil {
 				order = math.MaxFloat64
 			}
diff --git a/pkg/hydratables/presentationLinkbase.go b/pkg/hydratables/presentationLinkbase.go
index d9914b4..2bdc924 100644
--- a/pkg/hydratables/presentationLinkbase.go
+++ b/pkg/hydratables/presentationLinkbase.go
@@ -109,7 +109,11 @@ func hydratePresentationLink(linkbaseFile *serializables.PresentationLinkbaseFil
 				continue
 			}
 			orderAttr := attr.FindAttr(arc.XMLAttrs, "order")
-			if orderAttr == nil || orderAttr.Value == "" {
+			orderValue := "1"
+			if orderAttr != nil {
+				orderValue = orderAttr.Value
+			}
+			if orderValue == "" {
 				continue
 			}
 			arcroleAttr := attr.FindAttr(arc.XMLAttrs, "arcrole")
@@ -125,7 +129,7 @@ func hydratePresentationLink(linkbaseFile *serializables.PresentationLinkbaseFil
 				continue
 			}
 			newArc.Arcrole = arcroleAttr.Value
-			order, err := strconv.ParseFloat(orderAttr.Value, 64)
+			order, err := strconv.ParseFloat(orderValue, 64)
 			if err != nil {
 				order = math.MaxFloat64
 			}
-- 
2.43.0


From 1ad1f7476466e27d58f5a1b16800b5b2c795472c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:04:21 +0000
Subject: [PATCH 52/53] fix: attach a footnote to every fact and footnote that
 a label stands for

---
 pkg/hydratables/fact.go | 71 ++++++++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 30 deletions(-)

diff --git a/pkg/hydratables/fact.go b/pkg/hydratables/fact.go
index 2e13fe0..7b76df9 100644
--- a/pkg/hydratables/fact.go
+++ b/pkg/hydratables/fact.go
@@ -53,33 +53,37 @@ func (h *Hydratable) GetFootnotes(fact *Fact) []*Footnote {
 			fnoteArcs := fnoteArcs(arcs)
 			root := graph.Tree(fnoteArcs, attr.FactFootnoteArcrole)
 			for _, child := range root.Children {
-				href := mapFnoteLocatorToHref(&footnoteLink, child.Locator)
-				locatedID := href
-				pos := strings.LastIndex(href, "#")
-				if pos > -1 {
-					adjustedPos := pos + 1
-					if adjustedPos < len(href) {
-						locatedID = href[adjustedPos:]
+				for _, href := range mapFnoteLocatorToHrefs(&footnoteLink, child.Locator) {
+					locatedID := href
+					pos := strings.LastIndex(href, "#")
+					if pos > -1 {
+						adjustedPos := pos + 1
+						if adjustedPos < len(href) {
+							locatedID = href[adjustedPos:]
+						}
 					}
-				}
-				if locatedID == fact.ID {
-					for _, grandchild := range child.Children {
-						footnoteHref := mapFnoteLocatorToHref(&footnoteLink, grandchild.Locator)
-						locatedFnoteID := footnoteHref
-						pos := strings.LastIndex(footnoteHref, "#")
-						if pos > -1 {
-							adjustedPos := pos + 1
-							if adjustedPos < len(footnoteHref) {
-								locatedFnoteID = footnoteHref[adjustedPos:]
+					if locatedID == fact.ID {
+						for _, grandchild := range child.Children {
+							for _, footnoteHref := range mapFnoteLocatorToHrefs(&footnoteLink, grandchild.Locator) {
+								locatedFnoteID := footnoteHref
+								pos := strings.LastIndex(footnoteHref, "#")
+								if pos > -1 {
+									adjustedPos := pos + 1
+									if adjustedPos < len(footnoteHref) {
+										locatedFnoteID = footnoteHref[adjustedPos:]
+									}
+								}
+								locatedFootnotes := footnoteLink.findFootnotes(locatedFnoteID)
+								if len(locatedFootnotes) <= 0 {
+									locatedFootnote := h.FindFootnote(locatedFnoteID)
+									if locatedFootnote != nil {
+										locatedFootnotes = append(locatedFootnotes, locatedFootnote)
+									}
+								}
+								ret = append(ret, locatedFootnotes...)
 							}
 						}
-						locatedFootnote := footnoteLink.findFootnote(locatedFnoteID)
-						if locatedFootnote == nil {
-							locatedFootnote = h.FindFootnote(locatedFnoteID)
-						}
-						if locatedFootnote != nil {
-							ret = append(ret, locatedFootnote)
-						}
+						break
 					}
 				}
 			}
@@ -88,25 +92,32 @@ func (h *Hydratable) GetFootnotes(fact *Fact) []*Footnote {
 	return ret
 }
 
-func (footnoteLink *FootnoteLink) findFootnote(label string) *Footnote {
+// findFootnotes gives the footnotes of the link that have a label.
+func (footnoteLink *FootnoteLink) findFootnotes(label string) []*Footnote {
+	ret := make([]*Footnote, 0)
 	for _, footnote := range footnoteLink.Footnotes {
 		if footnote.Label == label {
-			return &footnote
+			ret = append(ret, &footnote)
 		}
 	}
-	return nil
+	return ret
 }
 
-func mapFnoteLocatorToHref(footnoteLink *FootnoteLink, locator string) string {
+// mapFnoteLocatorToHrefs gives the targets of the locators that have a label.
+func mapFnoteLocatorToHrefs(footnoteLink *FootnoteLink, locator string) []string {
+	ret := make([]string, 0)
 	for _, loc := range footnoteLink.Locs {
 		if loc.Label == locator {
 			i := strings.Index(loc.Href, "#")
 			if i >= 0 {
-				return loc.Href
+				ret = append(ret, loc.Href)
 			}
 		}
 	}
-	return "#" + locator
+	if len(ret) <= 0 {
+		ret = append(ret, "#"+locator)
+	}
+	return ret
 }
 
 func (h *Hydratable) FindFootnote(id string) *Footnote {
-- 
2.43.0


From 16b6f1fd2a613d7b16885419ab3008fc47411b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:57:02 +0000
Subject: [PATCH 53/53] fix: drop contexts with a blank identifier or an empty
 scheme

---
 pkg/hydratables/instance.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/hydratables/instance.go b/pkg/hydratables/instance.go
index 45a58cd..d7b3edb 100644
--- a/pkg/hydratables/instance.go
+++ b/pkg/hydratables/instance.go
@@ -141,11 +141,11 @@ func hydrateContexts(instanceFile *serializables.InstanceFile, h *Hydratable) []
 		if len(entity.Identifier) <= 0 {
 			continue
 		}
-		if entity.Identifier[0].CharData == "" {
+		if strings.TrimSpace(entity.Identifier[0].CharData) == "" {
 			continue
 		}
 		schemeAttr := attr.FindAttr(entity.Identifier[0].XMLAttrs, "scheme")
-		if schemeAttr == nil {
+		if schemeAttr == nil || schemeAttr.Value == "" {
 			continue
 		}
 		newEntity.Identifier.CharData = strings.TrimSpace(entity.Identifier[0].CharData)
-- 
2.43.0

