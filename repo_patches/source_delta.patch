From f896e8ad6084153da971d54d49088e6419dc3cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 01/54] fix: store the bytes parsed by the setElementBytes
 command

They were written past the end of an empty vector.
---
 parameter/ParameterMgr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index debf81d..1d9c47e 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -89,6 +89,7 @@
 #include <sstream>
 #include <fstream>
 #include <algorithm>
+#include <iterator>
 #include <stdexcept>
 #include <mutex>
 #include <iomanip>
@@ -1496,7 +1497,7 @@ CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::setElementBytesComm
     auto last = remoteCommand.getArguments().cend();
 
     try {
-        std::transform(first, last, begin(bytes), [](decltype(*first) input) {
+        std::transform(first, last, std::back_inserter(bytes), [](decltype(*first) input) {
             uint8_t byte;
 
             if (!convertTo(input, byte)) {
-- 
2.43.0


From 2ad29a19951702412b930845039b986d616a5cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 02/54] fix: report the failure of a domain split

The outcome of the domain's split was dropped: splitting an element that is not
associated to the domain or has no children was reported as done.
---
 parameter/ConfigurableDomains.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/parameter/ConfigurableDomains.cpp b/parameter/ConfigurableDomains.cpp
index 35674fd..faceb7c 100644
--- a/parameter/ConfigurableDomains.cpp
+++ b/parameter/ConfigurableDomains.cpp
@@ -310,9 +310,7 @@ bool CConfigurableDomains::split(const string &domainName, CConfigurableElement
         return false;
     }
     // Delegate
-    domain->split(element, infos);
-
-    return true;
+    return domain->split(element, infos);
 }
 
 void CConfigurableDomains::listAssociatedElements(string &strResult) const
-- 
2.43.0


From f591847580dd35bb8bc4b8a1353bf1c3f74afd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 03/54] fix: leave the element sequence untouched when refusing
 a new one

A sequence naming an unknown or repeated element was partly taken over before
the error was reported.
---
 parameter/DomainConfiguration.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/parameter/DomainConfiguration.cpp b/parameter/DomainConfiguration.cpp
index f5d7182..96f4617 100644
--- a/parameter/DomainConfiguration.cpp
+++ b/parameter/DomainConfiguration.cpp
@@ -228,13 +228,13 @@ void CDomainConfiguration::removeConfigurableElement(
 bool CDomainConfiguration::setElementSequence(const std::vector<string> &newElementSequence,
                                               string &error)
 {
+    // Check the whole sequence before moving anything: a refused sequence must leave the current one
+    // untouched
     std::vector<string> elementSequenceSet;
-    auto insertLocation = begin(mAreaConfigurationList);
 
     for (const std::string &elementPath : newElementSequence) {
 
-        auto areaConfiguration = findAreaConfigurationByPath(elementPath);
-        if (areaConfiguration == end(mAreaConfigurationList)) {
+        if (findAreaConfigurationByPath(elementPath) == end(mAreaConfigurationList)) {
 
             error = "Element " + elementPath + " not found in domain";
 
@@ -246,6 +246,14 @@ bool CDomainConfiguration::setElementSequence(const std::vector<string> &newElem
             return false;
         }
         elementSequenceSet.push_back(elementPath);
+    }
+
+    auto insertLocation = begin(mAreaConfigurationList);
+
+    for (const std::string &elementPath : newElementSequence) {
+
+        auto areaConfiguration = findAreaConfigurationByPath(elementPath);
+
         // Take into account the new configuration order by moving the configuration associated to
         // the element to the n-th position of the configuration list.
         // It will result in prepending to the configuration list wit the configuration of all
-- 
2.43.0


From 22769772973c1dc774c691654f5ba102bb5eebda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 04/54] fix: refuse or skip handle settings writes as handle
 value writes

setAsXML and setAsBytes did not check that the element is rogue, although their
documentation requires it, and wrote through the tuning mode, in which client
writes are ignored.
---
 parameter/ElementHandle.cpp       | 31 +++++++++++++++++++++++++++++++
 parameter/include/ElementHandle.h |  9 +++++++++
 2 files changed, 40 insertions(+)

diff --git a/parameter/ElementHandle.cpp b/parameter/ElementHandle.cpp
index ecf1bcf..1238c96 100644
--- a/parameter/ElementHandle.cpp
+++ b/parameter/ElementHandle.cpp
@@ -174,6 +174,16 @@ bool ElementHandle::getAsXML(std::string &xmlValue, std::string &error) const
 
 bool ElementHandle::setAsXML(const std::string &xmlValue, std::string &error)
 {
+    if (not checkSettingsSetValidity(error)) {
+        return false;
+    }
+
+    // When in tuning mode, silently skip "set" requests
+    if (mParameterMgr.tuningModeOn()) {
+
+        return true;
+    }
+
     return mParameterMgr.setSettingsAsXML(&mElement, xmlValue, error);
 }
 
@@ -190,6 +200,16 @@ bool ElementHandle::getAsBytes(std::vector<uint8_t> &bytesValue, std::string & /
 
 bool ElementHandle::setAsBytes(const std::vector<uint8_t> &bytesValue, std::string &error)
 {
+    if (not checkSettingsSetValidity(error)) {
+        return false;
+    }
+
+    // When in tuning mode, silently skip "set" requests
+    if (mParameterMgr.tuningModeOn()) {
+
+        return true;
+    }
+
     return mParameterMgr.setSettingsAsBytes(mElement, bytesValue, error);
 }
 
@@ -384,3 +404,14 @@ bool ElementHandle::checkSetValidity(size_t arrayLength, string &error) const
 
     return true;
 }
+
+bool ElementHandle::checkSettingsSetValidity(string &error) const
+{
+    if (not isRogue()) {
+
+        error = "Can not set settings of \"" + getPath() + "\" as it is not rogue.";
+        return false;
+    }
+
+    return true;
+}
diff --git a/parameter/include/ElementHandle.h b/parameter/include/ElementHandle.h
index 7d0888a..b176e7b 100644
--- a/parameter/include/ElementHandle.h
+++ b/parameter/include/ElementHandle.h
@@ -248,6 +248,15 @@ private:
      */
     bool checkSetValidity(size_t arrayLength, std::string &error) const;
 
+    /** Check that the settings of the element can be set (by XML or bytes).
+     *
+     * @param[out] error If the settings can not be set, contains a human readable
+     *                   explanation. Otherwise not modified.
+     *
+     * @return true if the settings can be set, false otherwise.
+     */
+    bool checkSettingsSetValidity(std::string &error) const;
+
     /** Check that the parameter value can be retrieved.
      *
      * @param asArray[in] true if accessing as an array, false otherwise.
-- 
2.43.0


From 7a98c53367dbcf69359e20867fb58dc9b6d97cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 05/54] fix: require both arguments of the setSequenceAwareness
 command

Given the domain only, the command read its missing second argument, which
aborts the process.
---
 parameter/ParameterMgr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index 1d9c47e..9e3dff5 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -195,7 +195,7 @@ const CParameterMgr::SRemoteCommandParserItem CParameterMgr::gastRemoteCommandPa
      "Delete all configurable domains"},
     {"renameDomain", &CParameterMgr::renameDomainCommandProcess, 2, "<domain> <new name>",
      "Rename configurable domain"},
-    {"setSequenceAwareness", &CParameterMgr::setSequenceAwarenessCommandProcess, 1,
+    {"setSequenceAwareness", &CParameterMgr::setSequenceAwarenessCommandProcess, 2,
      "<domain> true|false*", "Set configurable domain sequence awareness"},
     {"getSequenceAwareness", &CParameterMgr::getSequenceAwarenessCommandProcess, 1, "<domain>",
      "Get configurable domain sequence awareness"},
-- 
2.43.0


From 2a68517f1b597bc5bae2947e452ba90a24e0f000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 06/54] fix: leave an array parameter untouched when one of its
 new values is refused

The values preceding the refused one were already written.
---
 parameter/ArrayParameter.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/parameter/ArrayParameter.cpp b/parameter/ArrayParameter.cpp
index 91ea448..8daba17 100644
--- a/parameter/ArrayParameter.cpp
+++ b/parameter/ArrayParameter.cpp
@@ -271,6 +271,12 @@ bool CArrayParameter::setValues(size_t uiStartIndex, size_t offset, const string
     size_t size = getSize();
     offset += uiStartIndex * size;
 
+    // Keep the current values: setting is all or nothing
+    CParameterBlackboard *pBlackboard = parameterAccessContext.getParameterBlackboard();
+    const size_t startOffset = offset;
+    std::vector<uint8_t> currentValues(nbValues * size);
+    pBlackboard->readBytes(currentValues, startOffset);
+
     for (valueIndex = 0; valueIndex < nbValues; valueIndex++) {
 
         if (!doSet(astrValues[valueIndex], offset, parameterAccessContext)) {
@@ -279,6 +285,8 @@ bool CArrayParameter::setValues(size_t uiStartIndex, size_t offset, const string
             parameterAccessContext.appendToError(" " + getPath() + "/" +
                                                  std::to_string(valueIndex + uiStartIndex));
 
+            pBlackboard->writeBytes(currentValues, startOffset);
+
             return false;
         }
 
@@ -358,11 +366,18 @@ bool CArrayParameter::setValues(const std::vector<type> &values,
 
     assert(values.size() == nbValues);
 
+    // Keep the current values: setting is all or nothing
+    CParameterBlackboard *pBlackboard = parameterAccessContext.getParameterBlackboard();
+    std::vector<uint8_t> currentValues(nbValues * size);
+    pBlackboard->readBytes(currentValues, getOffset());
+
     // Process
     for (size_t valueIndex = 0; valueIndex < nbValues; valueIndex++) {
 
         if (!doSet(values[valueIndex], offset, parameterAccessContext)) {
 
+            pBlackboard->writeBytes(currentValues, getOffset());
+
             return false;
         }
 
-- 
2.43.0


From 69c6284492fa70f455b0cc044f01057ba4a09677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 07/54] fix: leave an element untouched when its new XML
 settings are refused

The parameters preceding the faulty one were already written.
---
 parameter/ParameterMgr.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index 9e3dff5..f081914 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -1560,8 +1560,13 @@ bool CParameterMgr::setSettingsAsXML(CConfigurableElement *configurableElement,
     if (doc == nullptr) {
         return false;
     }
+    // Keep the current settings: a refused document shall not be partly taken over
+    std::vector<uint8_t> currentSettings;
+    getSettingsAsBytes(*configurableElement, currentSettings);
+
     if (not xmlParse(xmlParameterContext, configurableElement, doc, "",
                      EParameterConfigurationLibrary, false)) {
+        _pMainParameterBlackboard->writeBytes(currentSettings, configurableElement->getOffset());
         return false;
     }
     if (_bAutoSyncOn) {
-- 
2.43.0


From ae11ba946e2e22784e72cb763f5dbea64512ae08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 08/54] fix: refuse a malformed bit field value

Text that is not a number was read as 0 and text after the digits ignored.
---
 parameter/BitParameterType.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parameter/BitParameterType.cpp b/parameter/BitParameterType.cpp
index 14421f1..5721c28 100644
--- a/parameter/BitParameterType.cpp
+++ b/parameter/BitParameterType.cpp
@@ -34,6 +34,7 @@
 #include "ParameterAccessContext.h"
 #include "BitParameterBlockType.h"
 #include "Utility.h"
+#include "convert.hpp"
 
 #define base CTypeElement
 
@@ -123,7 +124,15 @@ bool CBitParameterType::toBlackboard(const string &strValue, uint64_t &uiValue,
                                      CParameterAccessContext &parameterAccessContext) const
 {
     // Get value
-    uint64_t uiConvertedValue = strtoull(strValue.c_str(), nullptr, 0);
+    uint64_t uiConvertedValue;
+
+    if (!convertTo(strValue, uiConvertedValue)) {
+
+        parameterAccessContext.setError("Impossible to convert value " + strValue + " for " +
+                                        getKind());
+
+        return false;
+    }
 
     if (uiConvertedValue > _uiMax) {
 
-- 
2.43.0


From 2d0d05f47a276970ae9cd5ffec19660037bdca1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 09/54] fix: refuse an empty name for a domain or a
 configuration

It was then reachable through its kind only, not by its name.
---
 parameter/ConfigurableDomain.cpp  | 8 ++++++++
 parameter/ConfigurableDomains.cpp | 8 ++++++++
 parameter/Element.cpp             | 7 +++++++
 3 files changed, 23 insertions(+)

diff --git a/parameter/ConfigurableDomain.cpp b/parameter/ConfigurableDomain.cpp
index 71bb3e8..ceba313 100644
--- a/parameter/ConfigurableDomain.cpp
+++ b/parameter/ConfigurableDomain.cpp
@@ -618,6 +618,14 @@ bool CConfigurableDomain::createConfiguration(const string &strName,
                                               const CParameterBlackboard *pMainBlackboard,
                                               string &strError)
 {
+    // A configuration without a name could not be found by its name
+    if (strName.empty()) {
+
+        strError = "Empty configuration name";
+
+        return false;
+    }
+
     // Already exists?
     if (findChild(strName)) {
 
diff --git a/parameter/ConfigurableDomains.cpp b/parameter/ConfigurableDomains.cpp
index faceb7c..9c5882a 100644
--- a/parameter/ConfigurableDomains.cpp
+++ b/parameter/ConfigurableDomains.cpp
@@ -115,6 +115,14 @@ void CConfigurableDomains::toXml(CXmlElement &xmlElement,
 /// Domains
 bool CConfigurableDomains::createDomain(const string &strName, string &strError)
 {
+    // A domain without a name could not be found by its name
+    if (strName.empty()) {
+
+        strError = "Empty configurable domain name";
+
+        return false;
+    }
+
     // Already exists?
     if (findChild(strName)) {
 
diff --git a/parameter/Element.cpp b/parameter/Element.cpp
index 611951c..58a751c 100644
--- a/parameter/Element.cpp
+++ b/parameter/Element.cpp
@@ -244,6 +244,13 @@ const string &CElement::getName() const
 
 bool CElement::rename(const string &strName, string &strError)
 {
+    // An element without a name would be reached through its kind instead
+    if (strName.empty()) {
+
+        strError = "Empty name";
+
+        return false;
+    }
     // Check for conflict with brotherhood if relevant
     if (_pParent && _pParent->childrenAreDynamic()) {
 
-- 
2.43.0


From f38b8411aca5585d84779af0eb7d9b0e888cc37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:31 +0000
Subject: [PATCH 10/54] fix: keep the value of a rule on several or no values
 of an inclusive criterion

Dumping or exporting a rule printed an empty value when its criterion value was
not a single literal, so that exported rules could not be imported back.
---
 parameter/SelectionCriterionRule.cpp | 10 +++-------
 parameter/SelectionCriterionType.cpp |  8 +++++++-
 parameter/SelectionCriterionType.h   |  1 +
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/parameter/SelectionCriterionRule.cpp b/parameter/SelectionCriterionRule.cpp
index 8c22045..2a3dd57 100644
--- a/parameter/SelectionCriterionRule.cpp
+++ b/parameter/SelectionCriterionRule.cpp
@@ -111,8 +111,7 @@ bool CSelectionCriterionRule::parse(CRuleParser &ruleParser, string &strError)
 string CSelectionCriterionRule::dump() const
 {
     // Value
-    string value;
-    _pSelectionCriterion->getCriterionType()->getLiteralValue(_iMatchValue, value);
+    string value = _pSelectionCriterion->getCriterionType()->getFormattedState(_iMatchValue);
 
     // "<Name> <Verb> <Value>"
     return string(_pSelectionCriterion->getName()) + " " +
@@ -206,11 +205,8 @@ void CSelectionCriterionRule::toXml(CXmlElement &xmlElement, CXmlSerializingCont
     xmlElement.setAttribute("MatchesWhen", _astMatchesWhen[_eMatchesWhen].pcMatchesWhen);
 
     // Set Value
-    string strValue;
-
-    _pSelectionCriterion->getCriterionType()->getLiteralValue(_iMatchValue, strValue);
-
-    xmlElement.setAttribute("Value", strValue);
+    xmlElement.setAttribute(
+        "Value", _pSelectionCriterion->getCriterionType()->getFormattedState(_iMatchValue));
 }
 
 // XML MatchesWhen attribute parsing
diff --git a/parameter/SelectionCriterionType.cpp b/parameter/SelectionCriterionType.cpp
index d97d18b..c2b5417 100644
--- a/parameter/SelectionCriterionType.cpp
+++ b/parameter/SelectionCriterionType.cpp
@@ -35,6 +35,7 @@
 #define base CElement
 
 const std::string CSelectionCriterionType::_strDelimiter = "|";
+const std::string CSelectionCriterionType::_strNone = "<none>";
 
 CSelectionCriterionType::CSelectionCriterionType(bool bIsInclusive) : _bInclusive(bIsInclusive)
 {
@@ -106,6 +107,11 @@ bool CSelectionCriterionType::getNumericalValue(const std::string &strValue, int
 
             if (!getAtomicNumericalValue(astrValues[uiValueIndex], iResult)) {
 
+                // The formatted state of the empty set shall be understood too
+                if (strValue == _strNone) {
+
+                    return true;
+                }
                 return false;
             }
             iValue |= iResult;
@@ -221,7 +227,7 @@ std::string CSelectionCriterionType::getFormattedState(int iValue) const
     // Sometimes nothing is set
     if (strFormattedState.empty()) {
 
-        strFormattedState = "<none>";
+        strFormattedState = _strNone;
     }
 
     return strFormattedState;
diff --git a/parameter/SelectionCriterionType.h b/parameter/SelectionCriterionType.h
index 4b2f767..49254a8 100644
--- a/parameter/SelectionCriterionType.h
+++ b/parameter/SelectionCriterionType.h
@@ -90,4 +90,5 @@ private:
     std::map<std::string, int> _numToLitMap;
 
     static const std::string _strDelimiter; /**< Inclusive criterion type delimiter. */
+    static const std::string _strNone; /**< Formatted state when no value is set. */
 };
-- 
2.43.0


From 5f67be0bff9dfea027e87ea014f553a65c176266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 11/54] fix: print floating point values so that they read back
 as the same value

Real values were cut to six digits and small raw hexadecimal values were padded
before their 0x prefix.
---
 parameter/FloatingPointParameterType.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/parameter/FloatingPointParameterType.cpp b/parameter/FloatingPointParameterType.cpp
index 44de9e2..270a9fe 100644
--- a/parameter/FloatingPointParameterType.cpp
+++ b/parameter/FloatingPointParameterType.cpp
@@ -212,7 +212,7 @@ bool CFloatingPointParameterType::fromBlackboard(
 
         if (parameterAccessContext.outputRawFormatIsHex()) {
 
-            ostrStream << std::showbase << std::hex << std::setw(static_cast<int>(getSize() * 2))
+            ostrStream << "0x" << std::hex << std::setw(static_cast<int>(getSize() * 2))
                        << std::setfill('0');
         }
 
@@ -222,7 +222,17 @@ bool CFloatingPointParameterType::fromBlackboard(
         // Move from "raw memory" value space to real space
         auto fValue = utility::binaryCopy<float>(uiValue);
 
-        ostrStream << fValue;
+        // Use the shortest text that reads back as this very value
+        for (int precision = std::numeric_limits<float>::digits10;
+             precision <= std::numeric_limits<float>::max_digits10; precision++) {
+
+            float readBack;
+            ostrStream.str("");
+            ostrStream << std::setprecision(precision) << fValue;
+            if (convertTo(ostrStream.str(), readBack) && readBack == fValue) {
+                break;
+            }
+        }
     }
 
     strValue = ostrStream.str();
-- 
2.43.0


From 47a079136846cfec36394456e8e6afa159e19a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 12/54] fix: read enumeration values back from their raw form

Negative values were printed as unsigned numbers and their hexadecimal memory
content was only understood in raw space, so that raw exports were refused;
values beyond the size of the parameter were silently truncated in raw space.
---
 parameter/EnumParameterType.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/parameter/EnumParameterType.cpp b/parameter/EnumParameterType.cpp
index 468b6c6..6a05034 100644
--- a/parameter/EnumParameterType.cpp
+++ b/parameter/EnumParameterType.cpp
@@ -31,6 +31,7 @@
 #include "EnumValuePair.h"
 #include "ParameterAccessContext.h"
 #include "convert.hpp"
+#include "Utility.h"
 
 #include <iomanip>
 
@@ -96,9 +97,22 @@ bool CEnumParameterType::toBlackboard(const string &strValue, uint32_t &uiValue,
                                       CParameterAccessContext &parameterAccessContext) const
 {
     int32_t iParsedUserValue = 0;
+    uint32_t memoryContent = 0;
 
+    // An hexadecimal value is the memory content of the parameter, as for integers
+    if (utility::isHexadecimal(strValue) && convertTo(strValue, memoryContent)) {
+
+        if (not isEncodable(memoryContent, false)) {
+
+            parameterAccessContext.setError("Value " + strValue + " does not fit in " +
+                                            std::to_string(getSize()) + " byte(s)");
+            return false;
+        }
+        iParsedUserValue = static_cast<int32_t>(memoryContent);
+        signExtend(iParsedUserValue);
+    }
     // Try to read the user-provided string as an integer
-    if (not convertTo(strValue, iParsedUserValue)) {
+    else if (not convertTo(strValue, iParsedUserValue)) {
         // If it fails to parse as an integer, first try to convert it from
         // lexical to numerical space.
         int32_t iNumerical;
@@ -153,7 +167,7 @@ bool CEnumParameterType::fromBlackboard(string &userValue, const uint32_t &value
 
             userValue = sstream.str();
         } else {
-            userValue = std::to_string(value);
+            userValue = std::to_string(signedValue);
         }
     } else {
         // Literal display requested (should succeed)
@@ -167,7 +181,8 @@ bool CEnumParameterType::toBlackboard(int32_t userValue, uint32_t &value,
                                       CParameterAccessContext &parameterAccessContext) const
 {
     // Take care of format
-    if (parameterAccessContext.valueSpaceIsRaw()) {
+    if (parameterAccessContext.valueSpaceIsRaw() && userValue >= 0 &&
+        isEncodable(static_cast<uint32_t>(userValue), false)) {
         signExtend(userValue);
     }
 
-- 
2.43.0


From 427ac9a265d0c3f4fe462da90a4d36c224e0e4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 13/54] fix: give the configurations of an imported domain
 valid settings

Importing a single domain left the settings that its document does not provide
uninitialised; restoring such a configuration aborted.
---
 parameter/ParameterMgr.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index f081914..95d406b 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -2591,6 +2591,9 @@ bool CParameterMgr::importSingleDomainXml(const string &xmlSource, bool overwrit
         return false;
     }
 
+    // Settings that were not provided take the current values, as when importing all domains
+    standaloneDomain->validate(_pMainParameterBlackboard);
+
     // ownership has been transfered to the ConfigurableDomains object
     standaloneDomain.release();
     return true;
-- 
2.43.0


From cf0cd87f7c7c8ba5f131faaae5efaf7da1d63d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 14/54] fix: print all the bits of a 32 bits enumeration in
 hexadecimal

The mask was computed with an out of range shift.
---
 parameter/ParameterType.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parameter/ParameterType.cpp b/parameter/ParameterType.cpp
index 5472f27..d03453f 100644
--- a/parameter/ParameterType.cpp
+++ b/parameter/ParameterType.cpp
@@ -203,6 +203,11 @@ uint32_t CParameterType::makeEncodable(uint32_t uiData) const
 {
     size_t sizeInBits = getSize() * 8;
 
+    if (getSize() >= sizeof(uiData)) {
+        // Prevent inappropriate shifts
+        return uiData;
+    }
+
     uint32_t uiMask = (1 << sizeInBits) - 1;
 
     return uiData & uiMask;
-- 
2.43.0


From ab322f109c17ea7b29c874398554253d4515cbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 15/54] fix: refuse settings documents with misplaced, unnamed
 or repeated elements

---
 parameter/CompoundRule.cpp         |  5 +++-
 parameter/ConfigurableDomain.cpp   |  4 ++-
 parameter/ConfigurableDomains.cpp  | 21 +++++++++++++
 parameter/ConfigurableDomains.h    |  4 +++
 parameter/DomainConfiguration.cpp  | 18 +++++++++++
 parameter/DomainConfiguration.h    |  4 +++
 parameter/XmlDomainImportContext.h | 48 ++++++++++++++++++++++++++++++
 7 files changed, 102 insertions(+), 2 deletions(-)

diff --git a/parameter/CompoundRule.cpp b/parameter/CompoundRule.cpp
index e69592b..1cc1f45 100644
--- a/parameter/CompoundRule.cpp
+++ b/parameter/CompoundRule.cpp
@@ -29,6 +29,7 @@
  */
 #include "CompoundRule.h"
 #include "RuleParser.h"
+#include "XmlDomainImportContext.h"
 
 #define base CRule
 
@@ -135,7 +136,9 @@ bool CCompoundRule::fromXml(const CXmlElement &xmlElement,
     _bTypeAll = strType == _apcTypes[true];
 
     // Base
-    return base::fromXml(xmlElement, serializingContext);
+    return static_cast<CXmlDomainImportContext &>(serializingContext)
+               .checkChildrenKind(xmlElement, {"CompoundRule", "SelectionCriterionRule"}) &&
+           base::fromXml(xmlElement, serializingContext);
 }
 
 // From IXmlSource
diff --git a/parameter/ConfigurableDomain.cpp b/parameter/ConfigurableDomain.cpp
index ceba313..fc4507e 100644
--- a/parameter/ConfigurableDomain.cpp
+++ b/parameter/ConfigurableDomain.cpp
@@ -251,7 +251,9 @@ bool CConfigurableDomain::parseDomainConfigurations(const CXmlElement &xmlElemen
     xmlElement.getChildElement("Configurations", xmlConfigurationsElement);
 
     // Parse it and create domain configuration objects
-    return base::fromXml(xmlConfigurationsElement, serializingContext);
+    return serializingContext.checkChildrenKind(xmlConfigurationsElement, {"Configuration"}) &&
+           serializingContext.checkChildrenNames(xmlConfigurationsElement) &&
+           base::fromXml(xmlConfigurationsElement, serializingContext);
 }
 
 // Parse configurable elements
diff --git a/parameter/ConfigurableDomains.cpp b/parameter/ConfigurableDomains.cpp
index 9c5882a..9105f6f 100644
--- a/parameter/ConfigurableDomains.cpp
+++ b/parameter/ConfigurableDomains.cpp
@@ -31,6 +31,7 @@
 #include "ConfigurableDomains.h"
 #include "ConfigurableDomain.h"
 #include "ConfigurableElement.h"
+#include "XmlDomainImportContext.h"
 
 #define base CElement
 
@@ -101,6 +102,17 @@ void CConfigurableDomains::apply(CParameterBlackboard *pParameterBlackboard, CSy
     }
 }
 
+// From IXmlSink
+bool CConfigurableDomains::fromXml(const CXmlElement &xmlElement,
+                                   CXmlSerializingContext &serializingContext)
+{
+    auto &importContext = static_cast<CXmlDomainImportContext &>(serializingContext);
+
+    return importContext.checkChildrenKind(xmlElement, {"ConfigurableDomain"}) &&
+           importContext.checkChildrenNames(xmlElement) &&
+           base::fromXml(xmlElement, serializingContext);
+}
+
 // From IXmlSource
 void CConfigurableDomains::toXml(CXmlElement &xmlElement,
                                  CXmlSerializingContext &serializingContext) const
@@ -142,6 +154,15 @@ bool CConfigurableDomains::addDomain(CConfigurableDomain &domain, bool bOverwrit
     string strErrorDrop;
 
     string strDomainName(domain.getName());
+
+    // A domain without a name could not be found by its name
+    if (strDomainName.empty()) {
+
+        strError = "Empty configurable domain name";
+
+        return false;
+    }
+
     CConfigurableDomain *pExistingDomain = findConfigurableDomain(strDomainName, strErrorDrop);
 
     if (pExistingDomain) {
diff --git a/parameter/ConfigurableDomains.h b/parameter/ConfigurableDomains.h
index 5a096a5..4f56e9d 100644
--- a/parameter/ConfigurableDomains.h
+++ b/parameter/ConfigurableDomains.h
@@ -160,6 +160,10 @@ public:
     const CConfigurableDomain *findConfigurableDomain(const std::string &strDomain,
                                                       std::string &strError) const;
 
+    // From IXmlSink
+    bool fromXml(const CXmlElement &xmlElement,
+                 CXmlSerializingContext &serializingContext) override;
+
     // From IXmlSource
     void toXml(CXmlElement &xmlElement, CXmlSerializingContext &serializingContext) const override;
 
diff --git a/parameter/DomainConfiguration.cpp b/parameter/DomainConfiguration.cpp
index 96f4617..47157ac 100644
--- a/parameter/DomainConfiguration.cpp
+++ b/parameter/DomainConfiguration.cpp
@@ -62,6 +62,24 @@ bool CDomainConfiguration::childrenAreDynamic() const
     return true;
 }
 
+// From IXmlSink
+bool CDomainConfiguration::fromXml(const CXmlElement &xmlElement,
+                                   CXmlSerializingContext &serializingContext)
+{
+    auto &importContext = static_cast<CXmlDomainImportContext &>(serializingContext);
+
+    // At most one application rule
+    if (xmlElement.getNbChildElements() > 1) {
+
+        importContext.setError("More than one rule in " + xmlElement.getPath());
+
+        return false;
+    }
+
+    return importContext.checkChildrenKind(xmlElement, {"CompoundRule"}) &&
+           base::fromXml(xmlElement, serializingContext);
+}
+
 // XML configuration settings parsing
 bool CDomainConfiguration::parseSettings(CXmlElement &xmlConfigurationSettingsElement,
                                          CXmlDomainImportContext &context)
diff --git a/parameter/DomainConfiguration.h b/parameter/DomainConfiguration.h
index 5160369..3defc05 100644
--- a/parameter/DomainConfiguration.h
+++ b/parameter/DomainConfiguration.h
@@ -115,6 +115,10 @@ public:
     // Domain splitting
     void split(CConfigurableElement *pFromConfigurableElement);
 
+    // From IXmlSink
+    bool fromXml(const CXmlElement &xmlElement,
+                 CXmlSerializingContext &serializingContext) override;
+
     // XML configuration settings parsing/composing
     bool parseSettings(CXmlElement &xmlConfigurationSettingsElement,
                        CXmlDomainImportContext &context);
diff --git a/parameter/XmlDomainImportContext.h b/parameter/XmlDomainImportContext.h
index 17404f1..2134f8e 100644
--- a/parameter/XmlDomainImportContext.h
+++ b/parameter/XmlDomainImportContext.h
@@ -32,7 +32,9 @@
 #include "XmlDomainSerializingContext.h"
 #include "SelectionCriteriaDefinition.h"
 #include "SystemClass.h"
+#include "XmlElement.h"
 
+#include <set>
 #include <string>
 
 class CXmlDomainImportContext : public CXmlDomainSerializingContext
@@ -66,6 +68,52 @@ public:
 
     bool autoValidationRequired() const { return _bAutoValidationRequired; }
 
+    /** Check that all the children of an XML element are of the expected kind
+     *
+     * @param[in] xmlElement the XML element
+     * @param[in] kinds the expected kinds
+     * @return true if they are, false otherwise and the error is set accordingly
+     */
+    bool checkChildrenKind(const CXmlElement &xmlElement, const std::set<std::string> &kinds)
+    {
+        CXmlElement::CChildIterator it(xmlElement);
+        CXmlElement child;
+
+        while (it.next(child)) {
+
+            if (kinds.count(child.getType()) == 0) {
+
+                setError("Unexpected XML element " + child.getPath());
+
+                return false;
+            }
+        }
+        return true;
+    }
+
+    /** Check that the children of an XML element have names and that these are all different
+     *
+     * @param[in] xmlElement the XML element
+     * @return true if they have, false otherwise and the error is set accordingly
+     */
+    bool checkChildrenNames(const CXmlElement &xmlElement)
+    {
+        CXmlElement::CChildIterator it(xmlElement);
+        CXmlElement child;
+        std::set<std::string> names;
+
+        while (it.next(child)) {
+
+            if (child.getNameAttribute().empty() || !names.insert(child.getNameAttribute()).second) {
+
+                setError("Missing or already used name of XML element " + child.getPath());
+
+                return false;
+            }
+        }
+        return true;
+    }
+
 private:
     typedef CXmlDomainSerializingContext base;
 
-- 
2.43.0


From 5af0b083f3f143c7f1c2bec71a92cdca7f6b75f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 16/54] fix: refuse an unknown type of compound rule in a
 settings document

---
 parameter/CompoundRule.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parameter/CompoundRule.cpp b/parameter/CompoundRule.cpp
index 1cc1f45..5b0d0d4 100644
--- a/parameter/CompoundRule.cpp
+++ b/parameter/CompoundRule.cpp
@@ -132,7 +132,14 @@ bool CCompoundRule::fromXml(const CXmlElement &xmlElement,
 {
     // Get type
     string strType;
-    xmlElement.getAttribute("Type", strType);
+    if (xmlElement.getAttribute("Type", strType) && strType != _apcTypes[true] &&
+        strType != _apcTypes[false]) {
+
+        serializingContext.setError("Wrong Type attribute " + strType + " in " +
+                                    xmlElement.getPath());
+
+        return false;
+    }
     _bTypeAll = strType == _apcTypes[true];
 
     // Base
-- 
2.43.0


From a51dce5bd9d66abe0ed8aa9cafeb1a02a6dcfa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 17/54] fix: refuse a domain description without configurations
 or elements section

---
 parameter/ConfigurableDomain.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/parameter/ConfigurableDomain.cpp b/parameter/ConfigurableDomain.cpp
index fc4507e..e10970c 100644
--- a/parameter/ConfigurableDomain.cpp
+++ b/parameter/ConfigurableDomain.cpp
@@ -248,7 +248,12 @@ bool CConfigurableDomain::parseDomainConfigurations(const CXmlElement &xmlElemen
     // Get Configurations element
     CXmlElement xmlConfigurationsElement;
 
-    xmlElement.getChildElement("Configurations", xmlConfigurationsElement);
+    if (!xmlElement.getChildElement("Configurations", xmlConfigurationsElement)) {
+
+        serializingContext.setError("Missing Configurations in " + xmlElement.getPath());
+
+        return false;
+    }
 
     // Parse it and create domain configuration objects
     return serializingContext.checkChildrenKind(xmlConfigurationsElement, {"Configuration"}) &&
@@ -264,7 +269,12 @@ bool CConfigurableDomain::parseConfigurableElements(const CXmlElement &xmlElemen
 
     // Get ConfigurableElements element
     CXmlElement xmlConfigurableElementsElement;
-    xmlElement.getChildElement("ConfigurableElements", xmlConfigurableElementsElement);
+    if (!xmlElement.getChildElement("ConfigurableElements", xmlConfigurableElementsElement)) {
+
+        serializingContext.setError("Missing ConfigurableElements in " + xmlElement.getPath());
+
+        return false;
+    }
 
     // Parse it and associate found configurable elements to it
     CXmlElement::CChildIterator it(xmlConfigurableElementsElement);
-- 
2.43.0


From 6560b8d99cca6c878d92f7078474418848f2433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:30 +0000
Subject: [PATCH 18/54] fix: report a bad attribute of an imported domain
 instead of throwing

---
 parameter/ConfigurableDomain.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parameter/ConfigurableDomain.cpp b/parameter/ConfigurableDomain.cpp
index e10970c..f47732d 100644
--- a/parameter/ConfigurableDomain.cpp
+++ b/parameter/ConfigurableDomain.cpp
@@ -35,6 +35,7 @@
 #include "XmlDomainImportContext.h"
 #include "XmlDomainExportContext.h"
 #include "Utility.h"
+#include "PfError.hpp"
 #include "AlwaysAssert.hpp"
 #include <cassert>
 
@@ -206,8 +207,7 @@ void CConfigurableDomain::composeSettings(CXmlElement &xmlElement,
 
 // From IXmlSink
 bool CConfigurableDomain::fromXml(const CXmlElement &xmlElement,
-                                  CXmlSerializingContext &serializingContext)
-{
+                                  CXmlSerializingContext &serializingContext) try {
     // Context
     CXmlDomainImportContext &xmlDomainImportContext =
         static_cast<CXmlDomainImportContext &>(serializingContext);
@@ -236,6 +236,11 @@ bool CConfigurableDomain::fromXml(const CXmlElement &xmlElement,
     }
 
     return true;
+} catch (const PfError &e) {
+    // As the whole document is an element of this kind when importing a single domain, nobody else
+    // would catch it
+    serializingContext.setError(xmlElement.getPath() + ": " + e.what());
+    return false;
 }
 
 // XML parsing
-- 
2.43.0


From 917ebfa4522425d076fc35a5495cede5c83c63c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:46 +0000
Subject: [PATCH 19/54] fix: refuse settings given more than once for an
 element

---
 parameter/DomainConfiguration.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parameter/DomainConfiguration.cpp b/parameter/DomainConfiguration.cpp
index 47157ac..7dc40dc 100644
--- a/parameter/DomainConfiguration.cpp
+++ b/parameter/DomainConfiguration.cpp
@@ -40,6 +40,7 @@
 #include <cstdlib>
 #include <algorithm>
 #include <numeric>
+#include <set>
 #include "RuleParser.h"
 
 #define base CElement
@@ -89,6 +90,7 @@ bool CDomainConfiguration::parseSettings(CXmlElement &xmlConfigurationSettingsEl
 
     CXmlElement xmlConfigurableElementSettingsElement;
     auto insertLocation = begin(mAreaConfigurationList);
+    std::set<string> parsedElements;
 
     while (it.next(xmlConfigurableElementSettingsElement)) {
 
@@ -105,6 +107,14 @@ bool CDomainConfiguration::parseSettings(CXmlElement &xmlConfigurationSettingsEl
 
             return false;
         }
+        // Settings of an element shall be given once
+        if (!parsedElements.insert(configurableElementPath).second) {
+
+            context.setError("Settings of Configurable Element " + configurableElementPath +
+                             " given more than once in Configuration " + getPath());
+
+            return false;
+        }
         // Parse
         if (!importOneConfigurableElementSettings(areaConfiguration->get(),
                                                   xmlConfigurableElementSettingsElement, context)) {
-- 
2.43.0


From ffb465d3948ecdbb43fd0f8a9140a331e4b8375b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:09 +0000
Subject: [PATCH 20/54] fix: check typed integers against the range whatever
 their signedness

---
 parameter/IntegerParameterType.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parameter/IntegerParameterType.h b/parameter/IntegerParameterType.h
index 797cd44..4f5a0c4 100644
--- a/parameter/IntegerParameterType.h
+++ b/parameter/IntegerParameterType.h
@@ -72,8 +72,10 @@ private:
                         CParameterAccessContext &parameterAccessContext) const
     {
         {
-            if (userValue < static_cast<UserType>(_min) ||
-                userValue > static_cast<UserType>(_max)) {
+            // Compare in a type able to represent both the user value and the range
+            const auto wideValue = static_cast<int64_t>(userValue);
+
+            if (wideValue < static_cast<int64_t>(_min) || wideValue > static_cast<int64_t>(_max)) {
 
                 parameterAccessContext.setError("Value out of range");
                 return false;
-- 
2.43.0


From 3083fac330a4e1ace8536f12db96bf381cafb763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:34 +0000
Subject: [PATCH 21/54] fix: read unsigned integers as signed ones without sign
 extending them

---
 parameter/IntegerParameterType.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/parameter/IntegerParameterType.h b/parameter/IntegerParameterType.h
index 4f5a0c4..e710a56 100644
--- a/parameter/IntegerParameterType.h
+++ b/parameter/IntegerParameterType.h
@@ -268,6 +268,21 @@ public:
         return true;
     }
 
+    bool fromBlackboard(int32_t &iUserValue, uint32_t uiValue,
+                        CParameterAccessContext & /*ctx*/) const override
+    {
+        // Sign extend signed parameters only
+        iUserValue = static_cast<int32_t>(static_cast<CType>(uiValue));
+
+        return true;
+    }
+
+    bool fromBlackboard(uint32_t &uiUserValue, uint32_t uiValue,
+                        CParameterAccessContext &parameterAccessContext) const override
+    {
+        return Base::fromBlackboard(uiUserValue, uiValue, parameterAccessContext);
+    }
+
     // Default value handling (simulation only)
     uint32_t getDefaultValue() const override { return _min; }
 
-- 
2.43.0


From 675223a4b57c923c7a3619b01f92da3c3fbb703d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:17 +0000
Subject: [PATCH 22/54] fix: refuse to read in 32 bits a bit field value that
 does not fit

---
 parameter/BitParameter.cpp     | 10 +++++++---
 parameter/BitParameter.h       |  2 +-
 parameter/BitParameterType.cpp | 21 +++++++++++++++++----
 parameter/BitParameterType.h   |  4 ++--
 4 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/parameter/BitParameter.cpp b/parameter/BitParameter.cpp
index 81a9800..c976ad3 100644
--- a/parameter/BitParameter.cpp
+++ b/parameter/BitParameter.cpp
@@ -132,7 +132,11 @@ bool CBitParameter::access(uint32_t &uiValue, bool bSet,
     } else {
 
         // Convert
-        doGet(uiValue, offset, parameterAccessContext);
+        if (!doGet(uiValue, offset, parameterAccessContext)) {
+
+            appendParameterPathToError(parameterAccessContext);
+            return false;
+        }
     }
     return true;
 }
@@ -162,7 +166,7 @@ bool CBitParameter::doSet(type value, size_t offset,
 }
 
 template <typename type>
-void CBitParameter::doGet(type &value, size_t offset,
+bool CBitParameter::doGet(type &value, size_t offset,
                           CParameterAccessContext &parameterAccessContext) const
 {
     uint64_t uiData = 0;
@@ -174,7 +178,7 @@ void CBitParameter::doGet(type &value, size_t offset,
     pBlackboard->readInteger(&uiData, getBelongingBlockSize(), offset);
 
     // Convert
-    static_cast<const CBitParameterType *>(getTypeElement())
+    return static_cast<const CBitParameterType *>(getTypeElement())
         ->fromBlackboard(value, uiData, parameterAccessContext);
 }
 
diff --git a/parameter/BitParameter.h b/parameter/BitParameter.h
index 0487cb4..3761365 100644
--- a/parameter/BitParameter.h
+++ b/parameter/BitParameter.h
@@ -73,5 +73,5 @@ private:
     template <typename type>
     bool doSet(type value, size_t offset, CParameterAccessContext &parameterAccessContext) const;
     template <typename type>
-    void doGet(type &value, size_t offset, CParameterAccessContext &parameterAccessContext) const;
+    bool doGet(type &value, size_t offset, CParameterAccessContext &parameterAccessContext) const;
 };
diff --git a/parameter/BitParameterType.cpp b/parameter/BitParameterType.cpp
index 5721c28..e8e0338 100644
--- a/parameter/BitParameterType.cpp
+++ b/parameter/BitParameterType.cpp
@@ -162,7 +162,7 @@ bool CBitParameterType::toBlackboard(const string &strValue, uint64_t &uiValue,
     return true;
 }
 
-void CBitParameterType::fromBlackboard(string &strValue, const uint64_t &uiValue,
+bool CBitParameterType::fromBlackboard(string &strValue, const uint64_t &uiValue,
                                        CParameterAccessContext &parameterAccessContext) const
 {
     uint64_t uiConvertedValue = (uiValue & getMask()) >> _bitPos;
@@ -179,6 +179,8 @@ void CBitParameterType::fromBlackboard(string &strValue, const uint64_t &uiValue
     strStream << uiConvertedValue;
 
     strValue = strStream.str();
+
+    return true;
 }
 
 // Value access
@@ -199,10 +201,21 @@ bool CBitParameterType::toBlackboard(uint64_t uiUserValue, uint64_t &uiValue,
     return true;
 }
 
-void CBitParameterType::fromBlackboard(uint32_t &userValue, uint64_t value,
-                                       CParameterAccessContext & /*ctx*/) const
+bool CBitParameterType::fromBlackboard(uint32_t &userValue, uint64_t value,
+                                       CParameterAccessContext &parameterAccessContext) const
 {
-    userValue = static_cast<uint32_t>((value & getMask()) >> _bitPos);
+    const uint64_t fieldValue = (value & getMask()) >> _bitPos;
+
+    userValue = static_cast<uint32_t>(fieldValue);
+
+    if (userValue != fieldValue) {
+
+        parameterAccessContext.setError("Value does not fit in a 32 bits integer");
+
+        return false;
+    }
+
+    return true;
 }
 
 // Access from area configuration
diff --git a/parameter/BitParameterType.h b/parameter/BitParameterType.h
index a6745c8..5ed2e36 100644
--- a/parameter/BitParameterType.h
+++ b/parameter/BitParameterType.h
@@ -53,12 +53,12 @@ public:
     // String
     bool toBlackboard(const std::string &strValue, uint64_t &uiValue,
                       CParameterAccessContext &parameterAccessContext) const;
-    void fromBlackboard(std::string &strValue, const uint64_t &uiValue,
+    bool fromBlackboard(std::string &strValue, const uint64_t &uiValue,
                         CParameterAccessContext &parameterAccessContext) const;
     // Integer
     bool toBlackboard(uint64_t uiUserValue, uint64_t &uiValue,
                       CParameterAccessContext &parameterAccessContext) const;
-    void fromBlackboard(uint32_t &uiUserValue, uint64_t uiValue,
+    bool fromBlackboard(uint32_t &uiUserValue, uint64_t uiValue,
                         CParameterAccessContext &parameterAccessContext) const;
     // Access from area configuration
     uint64_t merge(uint64_t uiOriginData, uint64_t uiNewData) const;
-- 
2.43.0


From 9168d39e8556408cb009efb466d1dc3e350a1679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 23/54] fix: refuse infinite and NaN values of adapted integers

---
 parameter/IntegerParameterType.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parameter/IntegerParameterType.h b/parameter/IntegerParameterType.h
index e710a56..b53a347 100644
--- a/parameter/IntegerParameterType.h
+++ b/parameter/IntegerParameterType.h
@@ -35,6 +35,7 @@
 
 #include <convert.hpp>
 
+#include <cmath>
 #include <type_traits>
 #include <sstream>
 #include <string>
@@ -183,6 +184,14 @@ public:
             return Base::toBlackboard(dUserValue, uiValue, parameterAccessContext);
         }
 
+        // Adaptations can not convert infinites nor NaN
+        if (!std::isfinite(dUserValue)) {
+
+            parameterAccessContext.setError("Value out of range");
+
+            return false;
+        }
+
         // Do the conversion
         int64_t iConvertedValue = pParameterAdaption->fromUserValue(dUserValue);
 
-- 
2.43.0


From 55c76ec089a13e52145400a5ca3ff9cca179dd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:41 +0000
Subject: [PATCH 24/54] fix: refuse a string value containing a null character

---
 parameter/StringParameter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parameter/StringParameter.cpp b/parameter/StringParameter.cpp
index 0651bf6..ddd277f 100644
--- a/parameter/StringParameter.cpp
+++ b/parameter/StringParameter.cpp
@@ -78,6 +78,11 @@ bool CStringParameter::doSetValue(const string &strValue, size_t offset,
 
         return false;
     }
+    if (strValue.find('\0') != string::npos) {
+
+        parameterAccessContext.setError("Can not set a string containing a null character");
+        return false;
+    }
 
     // Write blackboard
     CParameterBlackboard *pBlackboard = parameterAccessContext.getParameterBlackboard();
-- 
2.43.0


From 5004a338c6e71f6793c44f366b129fbb09791a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:43 +0000
Subject: [PATCH 25/54] fix: refuse an empty array for a scalar parameter

---
 parameter/ElementHandle.cpp       | 8 ++++----
 parameter/include/ElementHandle.h | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/parameter/ElementHandle.cpp b/parameter/ElementHandle.cpp
index 1238c96..fb0cfa4 100644
--- a/parameter/ElementHandle.cpp
+++ b/parameter/ElementHandle.cpp
@@ -216,7 +216,7 @@ bool ElementHandle::setAsBytes(const std::vector<uint8_t> &bytesValue, std::stri
 template <class T>
 bool ElementHandle::setAs(const T value, string &error) const
 {
-    if (not checkSetValidity(getUserInputSize(value), error)) {
+    if (not checkSetValidity(isVector<T>::value, getUserInputSize(value), error)) {
         return false;
     }
     // Safe downcast thanks to isParameter check in checkSetValidity
@@ -381,10 +381,10 @@ bool ElementHandle::checkGetValidity(bool asArray, string &error) const
 }
 
 // Access validity
-bool ElementHandle::checkSetValidity(size_t arrayLength, string &error) const
+bool ElementHandle::checkSetValidity(bool asArray, size_t arrayLength, string &error) const
 {
     // Settings a parameter necessitates the right to get it
-    if (not checkGetValidity(arrayLength != 0, error)) {
+    if (not checkGetValidity(asArray, error)) {
         return false;
     }
 
@@ -394,7 +394,7 @@ bool ElementHandle::checkSetValidity(size_t arrayLength, string &error) const
         return false;
     }
 
-    if (arrayLength && (arrayLength != getArrayLength())) {
+    if (asArray && (arrayLength != getArrayLength())) {
 
         using std::to_string;
         error = "Array length mismatch for \"" + getPath() + "\", expected: " +
diff --git a/parameter/include/ElementHandle.h b/parameter/include/ElementHandle.h
index b176e7b..09ebf61 100644
--- a/parameter/include/ElementHandle.h
+++ b/parameter/include/ElementHandle.h
@@ -246,7 +246,7 @@ private:
      *
      * @return true if the parameter value can be retrieved, false otherwise.
      */
-    bool checkSetValidity(size_t arrayLength, std::string &error) const;
+    bool checkSetValidity(bool asArray, size_t arrayLength, std::string &error) const;
 
     /** Check that the settings of the element can be set (by XML or bytes).
      *
-- 
2.43.0


From 593c6237df2493e43824a937a5d7b372dc56f907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:43 +0000
Subject: [PATCH 26/54] fix: do not read a string beyond its room when it lacks
 a terminator

---
 parameter/ParameterBlackboard.cpp | 12 +++++-------
 parameter/ParameterBlackboard.h   |  2 +-
 parameter/StringParameter.cpp     |  3 ++-
 3 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/parameter/ParameterBlackboard.cpp b/parameter/ParameterBlackboard.cpp
index eaa6b97..0a4ae6f 100644
--- a/parameter/ParameterBlackboard.cpp
+++ b/parameter/ParameterBlackboard.cpp
@@ -74,15 +74,13 @@ void CParameterBlackboard::writeString(const std::string &input, size_t offset)
     *dest_last = '\0';
 }
 
-void CParameterBlackboard::readString(std::string &output, size_t offset) const
+void CParameterBlackboard::readString(std::string &output, size_t offset, size_t maxLength) const
 {
-    // As the string is null terminated in the blackboard,
-    // the size that will be read is not known. (>= 1)
-    assertValidAccess(offset, sizeof('\0'));
+    assertValidAccess(offset, maxLength);
 
-    // Get the pointer to the null terminated string
-    const uint8_t *first = &mBlackboard[offset];
-    output = reinterpret_cast<const char *>(first);
+    // The string ends at its terminator, or where its room ends if it has none
+    auto first = atOffset(offset);
+    output.assign(first, std::find(first, first + maxLength, '\0'));
 }
 
 void CParameterBlackboard::writeBuffer(const void *pvSrcData, size_t size, size_t offset)
diff --git a/parameter/ParameterBlackboard.h b/parameter/ParameterBlackboard.h
index 979e199..b406528 100644
--- a/parameter/ParameterBlackboard.h
+++ b/parameter/ParameterBlackboard.h
@@ -47,7 +47,7 @@ public:
     void readInteger(void *pvDstData, size_t size, size_t offset) const;
 
     void writeString(const std::string &input, size_t offset);
-    void readString(std::string &output, size_t offset) const;
+    void readString(std::string &output, size_t offset, size_t maxLength) const;
 
     void writeBuffer(const void *pvSrcData, size_t size, size_t offset);
     void readBuffer(void *pvDstData, size_t size, size_t offset) const;
diff --git a/parameter/StringParameter.cpp b/parameter/StringParameter.cpp
index ddd277f..a980a81 100644
--- a/parameter/StringParameter.cpp
+++ b/parameter/StringParameter.cpp
@@ -95,5 +95,6 @@ bool CStringParameter::doSetValue(const string &strValue, size_t offset,
 void CStringParameter::doGetValue(string &strValue, size_t offset,
                                   CParameterAccessContext &parameterAccessContext) const
 {
-    parameterAccessContext.getParameterBlackboard()->readString(strValue, offset);
+    // A value written as bytes or by the hardware may lack its terminator
+    parameterAccessContext.getParameterBlackboard()->readString(strValue, offset, getSize() - 1);
 }
-- 
2.43.0


From 7212e7829ab57f85736806419031a9b5f422f193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:43 +0000
Subject: [PATCH 27/54] fix: undo the partial effect of a refused XML setting
 of a bit parameter

---
 parameter/ParameterMgr.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index 95d406b..396b76d 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -1560,13 +1560,14 @@ bool CParameterMgr::setSettingsAsXML(CConfigurableElement *configurableElement,
     if (doc == nullptr) {
         return false;
     }
-    // Keep the current settings: a refused document shall not be partly taken over
+    // Keep the current settings (all: a bit parameter has no bytes of its own): a refused document
+    // shall not be partly taken over
     std::vector<uint8_t> currentSettings;
-    getSettingsAsBytes(*configurableElement, currentSettings);
+    getSettingsAsBytes(*getConstSystemClass(), currentSettings);
 
     if (not xmlParse(xmlParameterContext, configurableElement, doc, "",
                      EParameterConfigurationLibrary, false)) {
-        _pMainParameterBlackboard->writeBytes(currentSettings, configurableElement->getOffset());
+        _pMainParameterBlackboard->writeBytes(currentSettings, 0);
         return false;
     }
     if (_bAutoSyncOn) {
-- 
2.43.0


From b0994d7546d2a6bce164d6e5d08e98596a07bfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 28/54] fix: refuse malformed remote messages without trusting
 their sizes

A message of size 0, of a size beyond the memory available, or whose strings
do not fit in it, ended the process. A message which is not a request was
executed. A string was truncated at its first null character.
---
 remote-processor/AnswerMessage.cpp  |  9 ++++-
 remote-processor/AnswerMessage.h    |  2 +-
 remote-processor/Message.cpp        | 60 +++++++++++++++++++----------
 remote-processor/Message.h          | 15 ++++++--
 remote-processor/RequestMessage.cpp | 19 +++++++--
 remote-processor/RequestMessage.h   |  2 +-
 6 files changed, 76 insertions(+), 31 deletions(-)

diff --git a/remote-processor/AnswerMessage.cpp b/remote-processor/AnswerMessage.cpp
index 7ae948f..fd61127 100644
--- a/remote-processor/AnswerMessage.cpp
+++ b/remote-processor/AnswerMessage.cpp
@@ -79,12 +79,17 @@ void CAnswerMessage::fillDataToSend()
 }
 
 // Collect received data
-void CAnswerMessage::collectReceivedData()
+bool CAnswerMessage::collectReceivedData()
 {
     // Receive answer
     string strAnswer;
 
-    readString(strAnswer);
+    if (!readString(strAnswer)) {
+
+        return false;
+    }
 
     setAnswer(strAnswer);
+
+    return true;
 }
diff --git a/remote-processor/AnswerMessage.h b/remote-processor/AnswerMessage.h
index 2bc5147..f4433c4 100644
--- a/remote-processor/AnswerMessage.h
+++ b/remote-processor/AnswerMessage.h
@@ -49,7 +49,7 @@ private:
     // Fill data to send
     void fillDataToSend() override;
     // Collect received data
-    void collectReceivedData() override;
+    bool collectReceivedData() override;
 
     /** @return size of the answer message in bytes
     */
diff --git a/remote-processor/Message.cpp b/remote-processor/Message.cpp
index 66154ec..0abb1c0 100644
--- a/remote-processor/Message.cpp
+++ b/remote-processor/Message.cpp
@@ -32,6 +32,7 @@
 #include "Iterator.hpp"
 #include <asio.hpp>
 #include <vector>
+#include <algorithm>
 #include <numeric>
 #include <cassert>
 
@@ -53,7 +54,7 @@ CMessage::MsgType CMessage::getMsgId() const
 
 bool CMessage::isValidAccess(size_t offset, size_t size) const
 {
-    return offset + size <= getMessageDataSize();
+    return offset <= getMessageDataSize() && size <= getMessageDataSize() - offset;
 }
 
 // Data
@@ -70,9 +71,12 @@ void CMessage::writeData(const void *pvData, size_t size)
     _uiIndex += size;
 }
 
-void CMessage::readData(void *pvData, size_t size)
+bool CMessage::readData(void *pvData, size_t size)
 {
-    assert(isValidAccess(_uiIndex, size));
+    if (!isValidAccess(_uiIndex, size)) {
+
+        return false;
+    }
 
     auto first = begin(mData) + _uiIndex;
     auto last = first + size;
@@ -81,6 +85,8 @@ void CMessage::readData(void *pvData, size_t size)
     std::copy(first, last, destFirst);
 
     _uiIndex += size;
+
+    return true;
 }
 
 void CMessage::writeString(const string &strData)
@@ -94,24 +100,20 @@ void CMessage::writeString(const string &strData)
     writeData(strData.c_str(), size);
 }
 
-void CMessage::readString(string &strData)
+bool CMessage::readString(string &strData)
 {
     // Size
     uint32_t uiSize;
 
-    readData(&uiSize, sizeof(uiSize));
+    if (!readData(&uiSize, sizeof(uiSize)) || uiSize > getRemainingDataSize()) {
 
-    // Data
-    std::vector<char> string(uiSize + 1);
+        return false;
+    }
 
     // Content
-    readData(string.data(), uiSize);
-
-    // NULL-terminate string
-    string.back() = '\0';
+    strData.resize(uiSize);
 
-    // Output
-    strData = string.data();
+    return readData(&strData[0], uiSize);
 }
 
 size_t CMessage::getStringSize(const string &strData) const
@@ -214,6 +216,11 @@ CMessage::Result CMessage::serialize(Socket &&socket, bool bOut, string &strErro
             return error;
         }
 
+        if (uiSize < sizeof(_ucMsgId)) {
+            strError = "Size incorrect";
+            return error;
+        }
+
         // Msg Id
         if (!asio::read(asioSocket, asio::buffer(&_ucMsgId, sizeof(_ucMsgId)), ec)) {
             strError = string("Msg id read failed: ") + ec.message();
@@ -221,14 +228,23 @@ CMessage::Result CMessage::serialize(Socket &&socket, bool bOut, string &strErro
         }
 
         // Data
+        allocateData(0);
 
-        // Allocate
-        allocateData(uiSize - sizeof(_ucMsgId));
+        // Make room as data is received: the announced size can not be trusted
+        const size_t maxChunkSize = 64 * 1024;
+        size_t remainingSize = uiSize - sizeof(_ucMsgId);
 
-        // Data receive
-        if (!asio::read(asioSocket, asio::buffer(mData), ec)) {
-            strError = string("Data read failed: ") + ec.message();
-            return error;
+        while (remainingSize != 0) {
+            size_t chunkSize = std::min(remainingSize, maxChunkSize);
+            size_t offset = mData.size();
+            mData.resize(offset + chunkSize);
+
+            // Data receive
+            if (asio::read(asioSocket, asio::buffer(&mData[offset], chunkSize), ec) != chunkSize) {
+                strError = string("Data read failed: ") + ec.message();
+                return error;
+            }
+            remainingSize -= chunkSize;
         }
 
         // Checksum
@@ -246,7 +262,11 @@ CMessage::Result CMessage::serialize(Socket &&socket, bool bOut, string &strErro
         }
 
         // Collect data in derived
-        collectReceivedData();
+        if (!collectReceivedData()) {
+
+            strError = "Malformed message";
+            return error;
+        }
     }
 
     return success;
diff --git a/remote-processor/Message.h b/remote-processor/Message.h
index 2a596f1..12fa9dc 100644
--- a/remote-processor/Message.h
+++ b/remote-processor/Message.h
@@ -88,8 +88,10 @@ protected:
     *
     * @param[out] pvData pointer to the data array
     * @param[in] uiSize array size in bytes
+    *
+    * @return false if the message does not hold that much remaining data, true otherwise
     */
-    void readData(void *pvData, size_t uiSize);
+    bool readData(void *pvData, size_t uiSize);
 
     /** Write string to the message
     *
@@ -100,8 +102,10 @@ protected:
     /** Write string to the message
     *
     * @param[out] strData the string to read to
+    *
+    * @return false if the message does not hold a complete string, true otherwise
     */
-    void readString(std::string &strData);
+    bool readString(std::string &strData);
 
     /** @return string length plus room to store its length
     *
@@ -124,8 +128,11 @@ private:
     void allocateData(size_t uiDataSize);
     // Fill data to send
     virtual void fillDataToSend() = 0;
-    // Collect received data
-    virtual void collectReceivedData() = 0;
+    /** Collect received data
+    *
+    * @return false if the received data is malformed, true otherwise
+    */
+    virtual bool collectReceivedData() = 0;
 
     /** @return size of the transaction data in bytes
     */
diff --git a/remote-processor/RequestMessage.cpp b/remote-processor/RequestMessage.cpp
index 0c32438..8b89257 100644
--- a/remote-processor/RequestMessage.cpp
+++ b/remote-processor/RequestMessage.cpp
@@ -104,12 +104,20 @@ void CRequestMessage::fillDataToSend()
 }
 
 // Collect received data
-void CRequestMessage::collectReceivedData()
+bool CRequestMessage::collectReceivedData()
 {
+    if (getMsgId() != MsgType::ECommandRequest) {
+
+        return false;
+    }
+
     // Receive command
     string strCommand;
 
-    readString(strCommand);
+    if (!readString(strCommand)) {
+
+        return false;
+    }
 
     setCommand(strCommand);
 
@@ -118,10 +126,15 @@ void CRequestMessage::collectReceivedData()
 
         string strArgument;
 
-        readString(strArgument);
+        if (!readString(strArgument)) {
+
+            return false;
+        }
 
         addArgument(strArgument);
     }
+
+    return true;
 }
 
 // Size
diff --git a/remote-processor/RequestMessage.h b/remote-processor/RequestMessage.h
index 57c0be0..524bb16 100644
--- a/remote-processor/RequestMessage.h
+++ b/remote-processor/RequestMessage.h
@@ -64,7 +64,7 @@ private:
     // Fill data to send
     void fillDataToSend() override;
     // Collect received data
-    void collectReceivedData() override;
+    bool collectReceivedData() override;
     // Size
     /**
      * @return size of the request message in bytes
-- 
2.43.0


From c099b8b815d53491e68addbc02451dfda2de4a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 29/54] fix: keep accepting remote connections after a failed
 one

---
 remote-processor/RemoteProcessorServer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/remote-processor/RemoteProcessorServer.cpp b/remote-processor/RemoteProcessorServer.cpp
index d3fefdd..ba523c2 100644
--- a/remote-processor/RemoteProcessorServer.cpp
+++ b/remote-processor/RemoteProcessorServer.cpp
@@ -85,6 +85,11 @@ void CRemoteProcessorServer::acceptRegister(IRemoteCommandHandler &commandHandle
     auto peerHandler = [this, &commandHandler](asio::error_code ec) {
         if (ec) {
             std::cerr << "Accept failed: " << ec.message() << std::endl;
+
+            if (ec != asio::error::operation_aborted) {
+                // This connection is lost, not the next ones
+                acceptRegister(commandHandler);
+            }
             return;
         }
 
-- 
2.43.0


From 632cb617e80552540edb6b524bae03feebf248c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 30/54] fix: execute remote commands and handle accesses as a
 whole with regards to each other

Commands other than setTuningMode, parameter accesses and configuration
application ran without the blackboard lock, and handles checked the tuning mode
and their ownership before taking it: a command and a client access could
interleave, lose each other's writes or write after tuning mode was entered.
---
 parameter/ElementHandle.cpp                   | 22 ++++++++---
 parameter/ParameterMgr.cpp                    | 37 +++++++++++++++----
 parameter/ParameterMgr.h                      |  5 ++-
 .../RemoteCommandHandlerTemplate.h            |  3 +-
 4 files changed, 51 insertions(+), 16 deletions(-)

diff --git a/parameter/ElementHandle.cpp b/parameter/ElementHandle.cpp
index fb0cfa4..8ef8488 100644
--- a/parameter/ElementHandle.cpp
+++ b/parameter/ElementHandle.cpp
@@ -38,7 +38,7 @@
 #include <mutex>
 
 using std::string;
-using std::mutex;
+using std::recursive_mutex;
 using std::lock_guard;
 
 /** @return 0 by default, ie for non overloaded types. */
@@ -162,6 +162,9 @@ struct isVector<std::vector<T>> : std::true_type
 
 bool ElementHandle::getAsXML(std::string &xmlValue, std::string &error) const
 {
+    // Ensure we're safe against blackboard foreign access
+    lock_guard<recursive_mutex> autoLock(mParameterMgr.getBlackboardMutex());
+
     std::string result;
     if (not mParameterMgr.getSettingsAsXML(&mElement, result)) {
         error = result;
@@ -174,6 +177,9 @@ bool ElementHandle::getAsXML(std::string &xmlValue, std::string &error) const
 
 bool ElementHandle::setAsXML(const std::string &xmlValue, std::string &error)
 {
+    // Ensure we're safe against blackboard foreign access
+    lock_guard<recursive_mutex> autoLock(mParameterMgr.getBlackboardMutex());
+
     if (not checkSettingsSetValidity(error)) {
         return false;
     }
@@ -189,6 +195,9 @@ bool ElementHandle::setAsXML(const std::string &xmlValue, std::string &error)
 
 bool ElementHandle::getAsBytes(std::vector<uint8_t> &bytesValue, std::string & /*error*/) const
 {
+    // Ensure we're safe against blackboard foreign access
+    lock_guard<recursive_mutex> autoLock(mParameterMgr.getBlackboardMutex());
+
     mParameterMgr.getSettingsAsBytes(mElement, bytesValue);
 
     // Currently this operation can not fail.
@@ -200,6 +209,9 @@ bool ElementHandle::getAsBytes(std::vector<uint8_t> &bytesValue, std::string & /
 
 bool ElementHandle::setAsBytes(const std::vector<uint8_t> &bytesValue, std::string &error)
 {
+    // Ensure we're safe against blackboard foreign access
+    lock_guard<recursive_mutex> autoLock(mParameterMgr.getBlackboardMutex());
+
     if (not checkSettingsSetValidity(error)) {
         return false;
     }
@@ -216,6 +228,9 @@ bool ElementHandle::setAsBytes(const std::vector<uint8_t> &bytesValue, std::stri
 template <class T>
 bool ElementHandle::setAs(const T value, string &error) const
 {
+    // Ensure we're safe against blackboard foreign access
+    lock_guard<recursive_mutex> autoLock(mParameterMgr.getBlackboardMutex());
+
     if (not checkSetValidity(isVector<T>::value, getUserInputSize(value), error)) {
         return false;
     }
@@ -234,9 +249,6 @@ bool ElementHandle::setAs(const T value, string &error) const
     // copy the value
     T copy = value;
 
-    // Ensure we're safe against blackboard foreign access
-    lock_guard<mutex> autoLock(mParameterMgr.getBlackboardMutex());
-
     return parameter.access(copy, true, parameterAccessContext);
 }
 
@@ -250,7 +262,7 @@ bool ElementHandle::getAs(T &value, string &error) const
     auto &parameter = static_cast<const CBaseParameter &>(mElement);
 
     // Ensure we're safe against blackboard foreign access
-    lock_guard<mutex> autoLock(mParameterMgr.getBlackboardMutex());
+    lock_guard<recursive_mutex> autoLock(mParameterMgr.getBlackboardMutex());
 
     CParameterAccessContext parameterAccessContext(error, mParameterMgr.getParameterBlackboard());
 
diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index 396b76d..30d9fb0 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -122,7 +122,7 @@ using std::vector;
 using std::ostringstream;
 using std::ofstream;
 using std::ifstream;
-using std::mutex;
+using std::recursive_mutex;
 using std::lock_guard;
 
 // FIXME: integrate ParameterMgr to core namespace
@@ -683,7 +683,7 @@ void CParameterMgr::applyConfigurations()
     LOG_CONTEXT("Configuration application request");
 
     // Lock state
-    lock_guard<mutex> autoLock(getBlackboardMutex());
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
 
     if (!_bTuningModeIsOn) {
 
@@ -2098,7 +2098,7 @@ bool CParameterMgr::accessValue(CParameterAccessContext &parameterAccessContext,
                                 string &strError)
 {
     // Lock state
-    lock_guard<mutex> autoLock(getBlackboardMutex());
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
 
     CPathNavigator pathNavigator(strPath);
 
@@ -2118,6 +2118,9 @@ bool CParameterMgr::accessValue(CParameterAccessContext &parameterAccessContext,
 // Tuning mode
 bool CParameterMgr::setTuningMode(bool bOn, string &strError)
 {
+    // Lock state
+    lock_guard<recursive_mutex> autoLock(getBlackboardMutex());
+
     if (bOn == tuningModeOn()) {
         strError = "Tuning mode is already in the state requested";
         return false;
@@ -2129,8 +2132,6 @@ bool CParameterMgr::setTuningMode(bool bOn, string &strError)
 
         return false;
     }
-    // Lock state
-    lock_guard<mutex> autoLock(getBlackboardMutex());
 
     // Warn domains about exiting tuning mode
     if (!bOn) {
@@ -2733,7 +2734,7 @@ bool CParameterMgr::checkTuningModeOn(string &strError) const
 }
 
 // Tuning mutex dynamic parameter handling
-std::mutex &CParameterMgr::getBlackboardMutex()
+std::recursive_mutex &CParameterMgr::getBlackboardMutex()
 {
     return _blackboardMutex;
 }
@@ -2831,9 +2832,29 @@ void CParameterMgr::setForceNoRemoteInterface(bool bForceNoRemoteInterface)
     _bForceNoRemoteInterface = bForceNoRemoteInterface;
 }
 
+/** Command handler executing each command as a whole with regards to the client's accesses. */
+class CParameterMgr::LockingCommandHandler : public CCommandHandler
+{
+public:
+    LockingCommandHandler(CParameterMgr *parameterMgr)
+        : CCommandHandler(parameterMgr), mParameterMgr(*parameterMgr)
+    {
+    }
+
+private:
+    bool remoteCommandProcess(const IRemoteCommand &remoteCommand, string &strResult) override
+    {
+        lock_guard<recursive_mutex> autoLock(mParameterMgr.getBlackboardMutex());
+
+        return CCommandHandler::remoteCommandProcess(remoteCommand, strResult);
+    }
+
+    CParameterMgr &mParameterMgr;
+};
+
 CParameterMgr::CommandHandler CParameterMgr::createCommandHandler()
 {
-    auto commandHandler = utility::make_unique<CCommandHandler>(this);
+    auto commandHandler = utility::make_unique<LockingCommandHandler>(this);
 
     // Add command parsers
     for (const auto &remoteCommandParserItem : gastRemoteCommandParserItems) {
@@ -2843,7 +2864,7 @@ CParameterMgr::CommandHandler CParameterMgr::createCommandHandler()
             remoteCommandParserItem._pcDescription);
     }
 
-    return commandHandler;
+    return std::move(commandHandler);
 }
 
 bool CParameterMgr::isRemoteInterfaceRequired()
diff --git a/parameter/ParameterMgr.h b/parameter/ParameterMgr.h
index bc0726d..4949d57 100644
--- a/parameter/ParameterMgr.h
+++ b/parameter/ParameterMgr.h
@@ -405,6 +405,7 @@ private:
     // because that's the original name before a rework; this directive avoids
     // renaming a lot of stuff.
     using CCommandHandler = CommandHandler::element_type;
+    class LockingCommandHandler;
     using RemoteCommandParser = CCommandHandler::CommandStatus (CParameterMgr::*)(
         const IRemoteCommand &remoteCommand, std::string &strResult);
 
@@ -630,7 +631,7 @@ private:
     bool checkTuningModeOn(std::string &strError) const;
 
     // Blackboard (dynamic parameter handling)
-    std::mutex &getBlackboardMutex();
+    std::recursive_mutex &getBlackboardMutex();
 
     // Blackboard reference (dynamic parameter handling)
     CParameterBlackboard *getParameterBlackboard();
@@ -878,7 +879,7 @@ private:
     size_t _maxCommandUsageLength{0};
 
     // Blackboard access mutex
-    std::mutex _blackboardMutex;
+    std::recursive_mutex _blackboardMutex;
 
     /** Application main logger based on the one provided by the client */
     mutable core::log::Logger _logger;
diff --git a/remote-processor/RemoteCommandHandlerTemplate.h b/remote-processor/RemoteCommandHandlerTemplate.h
index 3d1ef55..c1b5588 100644
--- a/remote-processor/RemoteCommandHandlerTemplate.h
+++ b/remote-processor/RemoteCommandHandlerTemplate.h
@@ -145,7 +145,7 @@ public:
         return true;
     }
 
-private:
+protected:
     // Command processing
     bool remoteCommandProcess(const IRemoteCommand &remoteCommand, std::string &strResult) override
     {
@@ -171,6 +171,7 @@ private:
         return pRemoteCommandParserItem->parse(_pCommandParser, remoteCommand, strResult);
     }
 
+private:
     // Max command usage length, use for formatting
     void initMaxCommandUsageLength()
     {
-- 
2.43.0


From 84706ad469a8598d9db55079d777ba20a18c9471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 31/54] fix: refuse the rule texts that are only partly a rule

Anything between a rule and the brace or comma after it was skipped, text after
the root rule replaced it or asserted, empty words were taken as values and
nesting was only limited by the stack.
---
 parameter/RuleParser.cpp | 29 +++++++++++++++++++++++++++--
 parameter/RuleParser.h   |  2 ++
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/parameter/RuleParser.cpp b/parameter/RuleParser.cpp
index e069cd1..21d7146 100644
--- a/parameter/RuleParser.cpp
+++ b/parameter/RuleParser.cpp
@@ -162,13 +162,31 @@ bool CRuleParser::iterate(string &strError)
         ((delimiter = _strApplicationRule.find_first_of(_acDelimiters[_eStatus], _uiCurrentPos)) !=
          string::npos)) {
 
-        switch (_strApplicationRule[delimiter]) {
+        // Nothing may stand between a rule and the brace or comma that follows it, and no comma
+        // may follow the root rule
+        char cDelimiter = _strApplicationRule[delimiter];
+
+        if (((cDelimiter == '}' || cDelimiter == ',') && delimiter != _uiCurrentPos) ||
+            (cDelimiter == ',' && _currentDeepness == 0)) {
+
+            strError = "Syntax error";
+
+            return false;
+        }
+
+        switch (cDelimiter) {
 
         case '{':
             _eStatus = EBeginCompoundRule;
             // Extract type
             _strRuleType = _strApplicationRule.substr(_uiCurrentPos, delimiter - _uiCurrentPos);
-            _currentDeepness++;
+
+            if (++_currentDeepness > _maxDeepness) {
+
+                strError = "Too many nested rules";
+
+                return false;
+            }
             break;
         case '}':
             _eStatus = EEndCompoundRule;
@@ -256,6 +274,13 @@ bool CRuleParser::next(string &strNext, string &strError)
         return false;
     }
 
+    if (delimiter == _uiCurrentPos) {
+
+        strError = "Syntax error";
+
+        return false;
+    }
+
     strNext = _strApplicationRule.substr(_uiCurrentPos, delimiter - _uiCurrentPos);
 
     // New pos
diff --git a/parameter/RuleParser.h b/parameter/RuleParser.h
index 74c1863..b89a8d8 100644
--- a/parameter/RuleParser.h
+++ b/parameter/RuleParser.h
@@ -84,6 +84,8 @@ private:
     std::string::size_type _uiCurrentPos{0};
     // Deepness
     size_t _currentDeepness{0};
+    // Limited so that any accepted rule can also be exported to XML and imported back
+    static const size_t _maxDeepness = 128;
     // Current Type
     std::string _strRuleType;
     // Status
-- 
2.43.0


From 1f04a4b6fde45a868c60be8f54786a4d4ecbdcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 32/54] fix: leave the C API stopped when pfwStart fails

A failed pfwStart kept the instance and the criteria created so far, so
that the next calls worked on a parameter framework which is not started
(binding a parameter crashed) and a second start was refused as already
started.
---
 bindings/c/ParameterFramework.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bindings/c/ParameterFramework.cpp b/bindings/c/ParameterFramework.cpp
index 858994b..9529d79 100644
--- a/bindings/c/ParameterFramework.cpp
+++ b/bindings/c/ParameterFramework.cpp
@@ -235,11 +235,16 @@ bool pfwStart(PfwHandler *handle, const char *configPath, const PfwCriterion cri
 
     handle->setLogger(logger);
 
-    if (not handle->createCriteria(criteria, criterionNb)) {
+    if (not handle->createCriteria(criteria, criterionNb) or
+        not handle->pfw->start(status.msg())) {
+        // Not started: do not keep an instance that can not be used
+        handle->criteria.clear();
+        delete handle->pfw;
+        handle->pfw = nullptr;
         return status.failure();
     }
 
-    return status.forward(handle->pfw->start(status.msg()));
+    return status.success();
 }
 
 const char *pfwGetLastError(const PfwHandler *handle)
-- 
2.43.0


From a0702345bfff0538ab3c3ceb7dd92b27b8968c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 33/54] fix: refuse value names a set of criterion values can
 not hold

An inclusive criterion type accepted names which are empty, contain the
delimiter or are the text of the empty set: the states holding them were
printed as other states and no rule could name them.
---
 parameter/SelectionCriterionType.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parameter/SelectionCriterionType.cpp b/parameter/SelectionCriterionType.cpp
index c2b5417..a92cd7d 100644
--- a/parameter/SelectionCriterionType.cpp
+++ b/parameter/SelectionCriterionType.cpp
@@ -66,6 +66,16 @@ bool CSelectionCriterionType::addValuePair(int iValue, const std::string &strVal
         return false;
     }
 
+    // Check the literal can be told apart in a set of values
+    if (_bInclusive && (strValue.empty() || strValue == _strNone ||
+                        strValue.find(_strDelimiter) != std::string::npos)) {
+
+        strError = "Rejecting value pair association (literal not usable in a set of values): \"" +
+                   strValue + "\" for Selection Criterion Type " + getName();
+
+        return false;
+    }
+
     // Check already inserted
     if (_numToLitMap.find(strValue) != _numToLitMap.end()) {
 
-- 
2.43.0


From 50bc525fa56e943b6af6b9b37b1bbdd5637b0ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:51 +0000
Subject: [PATCH 34/54] fix: refuse component types nested in themselves below
 a parameter block

---
 parameter/ComponentInstance.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/parameter/ComponentInstance.cpp b/parameter/ComponentInstance.cpp
index 22fcdcc..e94f019 100644
--- a/parameter/ComponentInstance.cpp
+++ b/parameter/ComponentInstance.cpp
@@ -97,13 +97,17 @@ bool CComponentInstance::fromXml(const CXmlElement &xmlElement,
 
         return false;
     }
-    if (_pComponentType == getParent()) {
+    // The type shall not be under definition, however deep this component is within it
+    for (const CElement *pAncestor = getParent(); pAncestor; pAncestor = pAncestor->getParent()) {
 
-        serializingContext.setError("Recursive definition of " + _pComponentType->getName() +
-                                    " due to " + xmlElement.getPath() +
-                                    " referring to one of its own type.");
+        if (_pComponentType == pAncestor) {
 
-        return false;
+            serializingContext.setError("Recursive definition of " + _pComponentType->getName() +
+                                        " due to " + xmlElement.getPath() +
+                                        " referring to one of its own type.");
+
+            return false;
+        }
     }
 
     return base::fromXml(xmlElement, serializingContext);
-- 
2.43.0


From 2b17088b435e65d3da96e463f06f239ea9319696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:19 +0000
Subject: [PATCH 35/54] fix: refuse misplaced elements in structure
 descriptions

---
 parameter/BaseIntegerParameterType.cpp |  5 +++++
 parameter/BaseIntegerParameterType.h   |  1 +
 parameter/BitParameterBlockType.cpp    |  5 +++++
 parameter/BitParameterBlockType.h      |  1 +
 parameter/ComponentLibrary.cpp         |  5 +++++
 parameter/ComponentLibrary.h           |  1 +
 parameter/Element.cpp                  | 13 +++++++++++++
 parameter/Element.h                    |  3 +++
 parameter/EnumParameterType.cpp        |  5 +++++
 parameter/EnumParameterType.h          |  1 +
 parameter/SystemClass.cpp              |  5 +++++
 parameter/SystemClass.h                |  1 +
 parameter/TypeElement.cpp              |  9 +++++++++
 parameter/TypeElement.h                |  2 ++
 14 files changed, 57 insertions(+)

diff --git a/parameter/BaseIntegerParameterType.cpp b/parameter/BaseIntegerParameterType.cpp
index 16c60bf..7c1872a 100644
--- a/parameter/BaseIntegerParameterType.cpp
+++ b/parameter/BaseIntegerParameterType.cpp
@@ -47,6 +47,11 @@ bool CBaseIntegerParameterType::childrenAreDynamic() const
     return true;
 }
 
+bool CBaseIntegerParameterType::acceptsChild(const std::string &xmlElementType) const
+{
+    return xmlElementType == "LinearAdaptation" || xmlElementType == "LogarithmicAdaptation";
+}
+
 bool CBaseIntegerParameterType::fromBlackboard(uint32_t &uiUserValue, uint32_t uiValue,
                                                CParameterAccessContext & /*ctx*/) const
 {
diff --git a/parameter/BaseIntegerParameterType.h b/parameter/BaseIntegerParameterType.h
index b39816c..e45729b 100644
--- a/parameter/BaseIntegerParameterType.h
+++ b/parameter/BaseIntegerParameterType.h
@@ -68,4 +68,5 @@ protected:
 private:
     // Returns true if children dynamic creation is to be dealt with
     bool childrenAreDynamic() const override;
+    bool acceptsChild(const std::string &xmlElementType) const override;
 };
diff --git a/parameter/BitParameterBlockType.cpp b/parameter/BitParameterBlockType.cpp
index 316676d..957e7be 100644
--- a/parameter/BitParameterBlockType.cpp
+++ b/parameter/BitParameterBlockType.cpp
@@ -49,6 +49,11 @@ bool CBitParameterBlockType::childrenAreDynamic() const
     return true;
 }
 
+bool CBitParameterBlockType::acceptsChild(const std::string &xmlElementType) const
+{
+    return xmlElementType == "BitParameter";
+}
+
 // Size
 size_t CBitParameterBlockType::getSize() const
 {
diff --git a/parameter/BitParameterBlockType.h b/parameter/BitParameterBlockType.h
index 58b42d4..3be4c8c 100644
--- a/parameter/BitParameterBlockType.h
+++ b/parameter/BitParameterBlockType.h
@@ -53,6 +53,7 @@ public:
 
 private:
     bool childrenAreDynamic() const override;
+    bool acceptsChild(const std::string &xmlElementType) const override;
     // Instantiation
     CInstanceConfigurableElement *doInstantiate() const override;
 
diff --git a/parameter/ComponentLibrary.cpp b/parameter/ComponentLibrary.cpp
index 8b27c46..4fa4cbb 100644
--- a/parameter/ComponentLibrary.cpp
+++ b/parameter/ComponentLibrary.cpp
@@ -36,6 +36,11 @@ bool CComponentLibrary::childrenAreDynamic() const
     return true;
 }
 
+bool CComponentLibrary::acceptsChild(const std::string &xmlElementType) const
+{
+    return xmlElementType == "ComponentType";
+}
+
 std::string CComponentLibrary::getKind() const
 {
     return "ComponentLibrary";
diff --git a/parameter/ComponentLibrary.h b/parameter/ComponentLibrary.h
index a58a509..b0e8585 100644
--- a/parameter/ComponentLibrary.h
+++ b/parameter/ComponentLibrary.h
@@ -50,4 +50,5 @@ public:
 
 private:
     bool childrenAreDynamic() const override;
+    bool acceptsChild(const std::string &xmlElementType) const override;
 };
diff --git a/parameter/Element.cpp b/parameter/Element.cpp
index 58a751c..a388580 100644
--- a/parameter/Element.cpp
+++ b/parameter/Element.cpp
@@ -67,6 +67,12 @@ bool CElement::childrenAreDynamic() const
     return false;
 }
 
+bool CElement::acceptsChild(const string & /*xmlElementType*/) const
+{
+    // By default, rely on the element library
+    return true;
+}
+
 bool CElement::init(string &strError)
 {
 
@@ -311,6 +317,13 @@ CElement *CElement::createChild(const CXmlElement &childElement,
     CXmlElementSerializingContext &elementSerializingContext =
         static_cast<CXmlElementSerializingContext &>(serializingContext);
 
+    if (!acceptsChild(childElement.getType())) {
+
+        elementSerializingContext.setError("Misplaced XML element " + childElement.getPath());
+
+        return nullptr;
+    }
+
     // Child needs creation
     CElement *pChild = elementSerializingContext.getElementLibrary()->createElement(childElement);
 
diff --git a/parameter/Element.h b/parameter/Element.h
index b7cdc6d..11b8622 100644
--- a/parameter/Element.h
+++ b/parameter/Element.h
@@ -179,6 +179,9 @@ private:
     std::string getPathName() const;
     // Returns true if children dynamic creation is to be dealt with
     virtual bool childrenAreDynamic() const;
+    // Returns true if an XML element of the given type may be found below this element, when
+    // children are dynamic
+    virtual bool acceptsChild(const std::string &xmlElementType) const;
     // House keeping
     void removeChildren();
     // Fill XmlElement during XML composing
diff --git a/parameter/EnumParameterType.cpp b/parameter/EnumParameterType.cpp
index 6a05034..161276b 100644
--- a/parameter/EnumParameterType.cpp
+++ b/parameter/EnumParameterType.cpp
@@ -53,6 +53,11 @@ bool CEnumParameterType::childrenAreDynamic() const
     return true;
 }
 
+bool CEnumParameterType::acceptsChild(const std::string &xmlElementType) const
+{
+    return xmlElementType == "ValuePair";
+}
+
 // Element properties
 void CEnumParameterType::showProperties(string &strResult) const
 {
diff --git a/parameter/EnumParameterType.h b/parameter/EnumParameterType.h
index 2103377..589ccfc 100644
--- a/parameter/EnumParameterType.h
+++ b/parameter/EnumParameterType.h
@@ -74,6 +74,7 @@ private:
 
     // Returns true if children dynamic creation is to be dealt with
     bool childrenAreDynamic() const override;
+    bool acceptsChild(const std::string &xmlElementType) const override;
 
     // Literal - numerical conversions
     bool getLiteral(int32_t iNumerical, std::string &strLiteral) const;
diff --git a/parameter/SystemClass.cpp b/parameter/SystemClass.cpp
index ef2383b..d9f0478 100644
--- a/parameter/SystemClass.cpp
+++ b/parameter/SystemClass.cpp
@@ -74,6 +74,11 @@ bool CSystemClass::childrenAreDynamic() const
     return true;
 }
 
+bool CSystemClass::acceptsChild(const std::string &xmlElementType) const
+{
+    return xmlElementType == "Subsystem" || xmlElementType == "SubsystemInclude";
+}
+
 string CSystemClass::getKind() const
 {
     return "SystemClass";
diff --git a/parameter/SystemClass.h b/parameter/SystemClass.h
index bb9a8aa..12b1e96 100644
--- a/parameter/SystemClass.h
+++ b/parameter/SystemClass.h
@@ -91,6 +91,7 @@ private:
     CSystemClass &operator=(const CSystemClass &);
     // base
     bool childrenAreDynamic() const override;
+    bool acceptsChild(const std::string &xmlElementType) const override;
 
     /** Load shared libraries subsystem plugins.
      *
diff --git a/parameter/TypeElement.cpp b/parameter/TypeElement.cpp
index e6b9276..5f7485c 100644
--- a/parameter/TypeElement.cpp
+++ b/parameter/TypeElement.cpp
@@ -124,6 +124,15 @@ bool CTypeElement::fromXml(const CXmlElement &xmlElement,
     return base::fromXml(xmlElement, serializingContext);
 }
 
+bool CTypeElement::acceptsChild(const std::string &xmlElementType) const
+{
+    return xmlElementType == "Component" || xmlElementType == "ParameterBlock" ||
+           xmlElementType == "BitParameterBlock" || xmlElementType == "BooleanParameter" ||
+           xmlElementType == "IntegerParameter" || xmlElementType == "EnumParameter" ||
+           xmlElementType == "FixedPointParameter" || xmlElementType == "FloatingPointParameter" ||
+           xmlElementType == "StringParameter";
+}
+
 CInstanceConfigurableElement *CTypeElement::instantiate() const
 {
     CInstanceConfigurableElement *pInstanceConfigurableElement = doInstantiate();
diff --git a/parameter/TypeElement.h b/parameter/TypeElement.h
index e73987c..e4c0b53 100644
--- a/parameter/TypeElement.h
+++ b/parameter/TypeElement.h
@@ -98,6 +98,8 @@ protected:
     std::string getFormattedMapping(const CTypeElement *predecessor) const;
 
 private:
+    // Parameters, blocks and components, as far as dynamic children are concerned
+    bool acceptsChild(const std::string &xmlElementType) const override;
     CTypeElement(const CTypeElement &);
     CTypeElement &operator=(const CTypeElement &);
     // Actual instance creation
-- 
2.43.0


From 3b5fda3cde51cbe3277ac3753b1b163593185cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 36/54] fix: read the instance definition of a subsystem, and
 nothing else, as such

---
 parameter/Subsystem.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/parameter/Subsystem.cpp b/parameter/Subsystem.cpp
index c422a88..764c039 100644
--- a/parameter/Subsystem.cpp
+++ b/parameter/Subsystem.cpp
@@ -125,15 +125,19 @@ bool CSubsystem::structureFromXml(const CXmlElement &xmlElement,
     }
 
     // XML populate ComponentLibrary
-    xmlElement.getChildElement("ComponentLibrary", childElement);
-
-    if (!_pComponentLibrary->fromXml(childElement, serializingContext)) {
+    if (xmlElement.getChildElement("ComponentLibrary", childElement) &&
+        !_pComponentLibrary->fromXml(childElement, serializingContext)) {
 
         return false;
     }
 
-    // XML populate InstanceDefintion
-    xmlElement.getChildElement("InstanceDefintion", childElement);
+    // XML populate InstanceDefinition
+    if (!xmlElement.getChildElement("InstanceDefinition", childElement)) {
+
+        serializingContext.setError("No InstanceDefinition in " + xmlElement.getPath());
+
+        return false;
+    }
     if (!_pInstanceDefinition->fromXml(childElement, serializingContext)) {
 
         return false;
-- 
2.43.0


From da3ca064a0a07e433f7450b53b2722d4f4d0da76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:13 +0000
Subject: [PATCH 37/54] fix: refuse unsupported sizes and overflowing positions
 in structure descriptions

---
 parameter/BitParameterBlockType.cpp   | 14 ++++++++++++--
 parameter/BitParameterType.cpp        |  2 +-
 parameter/EnumParameterType.cpp       |  4 +++-
 parameter/FixedPointParameterType.cpp |  6 +++++-
 parameter/ParameterType.cpp           | 12 ++++++++++++
 parameter/ParameterType.h             |  3 +++
 6 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/parameter/BitParameterBlockType.cpp b/parameter/BitParameterBlockType.cpp
index 957e7be..610e17b 100644
--- a/parameter/BitParameterBlockType.cpp
+++ b/parameter/BitParameterBlockType.cpp
@@ -65,8 +65,18 @@ bool CBitParameterBlockType::fromXml(const CXmlElement &xmlElement,
                                      CXmlSerializingContext &serializingContext)
 {
     // Size
-    xmlElement.getAttribute("Size", _size);
-    _size /= 8;
+    size_t sizeInBits = 0;
+    xmlElement.getAttribute("Size", sizeInBits);
+
+    if (sizeInBits != 8 && sizeInBits != 16 && sizeInBits != 32 && sizeInBits != 64) {
+
+        serializingContext.setError("Unsupported size (" + std::to_string(sizeInBits) + ") for " +
+                                    getKind() + " " + xmlElement.getPath() +
+                                    ". Supported sizes are 8, 16, 32 and 64.");
+
+        return false;
+    }
+    _size = sizeInBits / 8;
 
     // Base
     return base::fromXml(xmlElement, serializingContext);
diff --git a/parameter/BitParameterType.cpp b/parameter/BitParameterType.cpp
index e8e0338..2547fa9 100644
--- a/parameter/BitParameterType.cpp
+++ b/parameter/BitParameterType.cpp
@@ -87,7 +87,7 @@ bool CBitParameterType::fromXml(const CXmlElement &xmlElement,
 
     size_t uiParentBlockBitSize = pBitParameterBlockType->getSize() * 8;
 
-    if (_bitPos + _uiBitSize > uiParentBlockBitSize) {
+    if (_uiBitSize > uiParentBlockBitSize || _bitPos > uiParentBlockBitSize - _uiBitSize) {
 
         // Range exceeded
         std::ostringstream strStream;
diff --git a/parameter/EnumParameterType.cpp b/parameter/EnumParameterType.cpp
index 161276b..5e21007 100644
--- a/parameter/EnumParameterType.cpp
+++ b/parameter/EnumParameterType.cpp
@@ -86,7 +86,9 @@ bool CEnumParameterType::fromXml(const CXmlElement &xmlElement,
 {
     // Size in bits
     size_t sizeInBits = 0;
-    if (not xmlElement.getAttribute("Size", sizeInBits)) {
+    xmlElement.getAttribute("Size", sizeInBits);
+
+    if (!isSizeSupported(sizeInBits, xmlElement, serializingContext)) {
         return false;
     }
 
diff --git a/parameter/FixedPointParameterType.cpp b/parameter/FixedPointParameterType.cpp
index 830ac64..9883ecb 100644
--- a/parameter/FixedPointParameterType.cpp
+++ b/parameter/FixedPointParameterType.cpp
@@ -94,6 +94,10 @@ bool CFixedPointParameterType::fromXml(const CXmlElement &xmlElement,
     size_t sizeInBits = 0;
     xmlElement.getAttribute("Size", sizeInBits);
 
+    if (!isSizeSupported(sizeInBits, xmlElement, serializingContext)) {
+        return false;
+    }
+
     // Q notation
     xmlElement.getAttribute("Integral", _uiIntegral);
     xmlElement.getAttribute("Fractional", _uiFractional);
@@ -270,7 +274,7 @@ bool CFixedPointParameterType::fromBlackboard(double &dUserValue, uint32_t uiVal
 // Util size
 size_t CFixedPointParameterType::getUtilSizeInBits() const
 {
-    return _uiIntegral + _uiFractional + 1;
+    return static_cast<size_t>(_uiIntegral) + _uiFractional + 1;
 }
 
 // Compute the range for the type (minimum and maximum values)
diff --git a/parameter/ParameterType.cpp b/parameter/ParameterType.cpp
index d03453f..35085ce 100644
--- a/parameter/ParameterType.cpp
+++ b/parameter/ParameterType.cpp
@@ -61,6 +61,18 @@ size_t CParameterType::getSize() const
     return _size;
 }
 
+bool CParameterType::isSizeSupported(size_t sizeInBits, const CXmlElement &xmlElement,
+                                     CXmlSerializingContext &serializingContext) const
+{
+    if (sizeInBits == 8 || sizeInBits == 16 || sizeInBits == 32) {
+        return true;
+    }
+    serializingContext.setError("Unsupported size (" + std::to_string(sizeInBits) + ") for " +
+                                getKind() + " " + xmlElement.getPath() +
+                                ". Supported sizes are 8, 16 and 32.");
+    return false;
+}
+
 // Unit
 string CParameterType::getUnit() const
 {
diff --git a/parameter/ParameterType.h b/parameter/ParameterType.h
index b3a5685..4df1f98 100644
--- a/parameter/ParameterType.h
+++ b/parameter/ParameterType.h
@@ -129,6 +129,9 @@ protected:
     void populate(CElement *pElement) const override;
     // Size
     void setSize(size_t size);
+    // Check a parameter of this size (in bits) can be stored, and set the error otherwise
+    bool isSizeSupported(size_t sizeInBits, const CXmlElement &xmlElement,
+                         CXmlSerializingContext &serializingContext) const;
 
     // Check data has no bit set outside available range (based on byte size) and
     // check data is consistent with available range, with respect to its sign
-- 
2.43.0


From 2b18a07d60af107200da8f14d11405ed4abb3a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 38/54] fix: start floating point parameters of virtual
 subsystems within their range

---
 parameter/FloatingPointParameterType.cpp | 8 ++++++++
 parameter/FloatingPointParameterType.h   | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/parameter/FloatingPointParameterType.cpp b/parameter/FloatingPointParameterType.cpp
index 270a9fe..cdaafa9 100644
--- a/parameter/FloatingPointParameterType.cpp
+++ b/parameter/FloatingPointParameterType.cpp
@@ -28,6 +28,7 @@
  * SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 #include "FloatingPointParameterType.h"
+#include <algorithm>
 #include <sstream>
 #include <iomanip>
 #include "ParameterAccessContext.h"
@@ -266,6 +267,13 @@ bool CFloatingPointParameterType::fromBlackboard(double &dUserValue, uint32_t ui
     return true;
 }
 
+// Default value handling (simulation only)
+uint32_t CFloatingPointParameterType::getDefaultValue() const
+{
+    // Zero or, if it is out of range, the closest bound
+    return utility::binaryCopy<uint32_t>(std::min(std::max(0.0f, _fMin), _fMax));
+}
+
 bool CFloatingPointParameterType::checkValueAgainstRange(double dValue) const
 {
     // Check that dValue can safely be cast to a float
diff --git a/parameter/FloatingPointParameterType.h b/parameter/FloatingPointParameterType.h
index b56c9aa..d05dce5 100644
--- a/parameter/FloatingPointParameterType.h
+++ b/parameter/FloatingPointParameterType.h
@@ -54,6 +54,9 @@ public:
     bool fromBlackboard(double &dUserValue, uint32_t uiValue,
                         CParameterAccessContext &parameterAccessContext) const override;
 
+    // Default value handling (simulation only)
+    uint32_t getDefaultValue() const override;
+
     void showProperties(std::string &strResult) const override;
 
     std::string getKind() const override;
-- 
2.43.0


From 1f64379f7710a4fe1af28556e59faf4c06a0ffe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 39/54] fix: return the value of a mapping item looked for by
 its key

---
 parameter/MappingContext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parameter/MappingContext.cpp b/parameter/MappingContext.cpp
index 3599296..2b9f14c 100644
--- a/parameter/MappingContext.cpp
+++ b/parameter/MappingContext.cpp
@@ -71,7 +71,7 @@ const string *CMappingContext::getItem(const string &strKey) const
     auto itemFound = find_if(begin(mItems), end(mItems), [&](const SItem &item) {
         return item.strKey != nullptr && strKey == *item.strKey;
     });
-    return (itemFound != end(mItems)) ? itemFound->strKey : nullptr;
+    return (itemFound != end(mItems)) ? itemFound->strItem : nullptr;
 }
 
 bool CMappingContext::iSet(size_t itemType) const
-- 
2.43.0


From 61a0e07b9eacd88c0f825666c3dbb7145b131c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:28 +0000
Subject: [PATCH 40/54] fix: refuse structures whose elements have no unique
 name to be reached by

---
 parameter/ComponentLibrary.cpp | 10 ++++++++++
 parameter/Element.cpp          | 30 ++++++++++++++++++++++++++++++
 parameter/Element.h            |  9 +++++++++
 parameter/ParameterMgr.cpp     |  6 ++++++
 4 files changed, 55 insertions(+)

diff --git a/parameter/ComponentLibrary.cpp b/parameter/ComponentLibrary.cpp
index 4fa4cbb..085ac63 100644
--- a/parameter/ComponentLibrary.cpp
+++ b/parameter/ComponentLibrary.cpp
@@ -70,6 +70,16 @@ bool CComponentLibrary::fromXml(const CXmlElement &xmlElement,
                 return false;
             }
         } else {
+            // Component types are referred to by their name
+            const std::string strName = childElement.getNameAttribute();
+
+            if (strName.empty() || getComponentType(strName)) {
+
+                serializingContext.setError("Missing or already used name of component type " +
+                                            childElement.getPath());
+
+                return false;
+            }
             // Regular child creation and populating
             CElement *pChild = createChild(childElement, serializingContext);
 
diff --git a/parameter/Element.cpp b/parameter/Element.cpp
index a388580..a694540 100644
--- a/parameter/Element.cpp
+++ b/parameter/Element.cpp
@@ -32,6 +32,7 @@
 #include "ElementLibrary.h"
 #include "ErrorContext.hpp"
 #include "PfError.hpp"
+#include <set>
 #include <algorithm>
 #include <assert.h>
 #include <stdio.h>
@@ -468,6 +469,35 @@ CElement *CElement::findDescendant(CPathNavigator &pathNavigator)
     return pChild->findDescendant(pathNavigator);
 }
 
+bool CElement::checkDescendantNames(string &strError) const
+{
+    std::set<string> names;
+
+    for (const CElement *pChild : _childArray) {
+
+        const string &strName = pChild->getName();
+
+        if (strName.empty() || strName.find('/') != string::npos) {
+
+            strError = "Invalid name '" + strName + "' for a " + pChild->getKind() + " of " +
+                       getPath();
+
+            return false;
+        }
+        if (!names.insert(strName).second) {
+
+            strError = "Several elements named " + strName + " in " + getPath();
+
+            return false;
+        }
+        if (!pChild->checkDescendantNames(strError)) {
+
+            return false;
+        }
+    }
+    return true;
+}
+
 bool CElement::isDescendantOf(const CElement *pCandidateAscendant) const
 {
     if (!_pParent) {
diff --git a/parameter/Element.h b/parameter/Element.h
index 11b8622..daad4d8 100644
--- a/parameter/Element.h
+++ b/parameter/Element.h
@@ -105,6 +105,15 @@ public:
     CElement *findDescendant(CPathNavigator &pathNavigator);
     bool isDescendantOf(const CElement *pCandidateAscendant) const;
 
+    /**
+     * Check that the descendants can be reached through their path: they have a name, which does
+     * not hold the path separator, and do not share it with a brother.
+     *
+     * @param[out] strError the reason of the failure, if any
+     * @return true if all descendants can be reached, false otherwise
+     */
+    bool checkDescendantNames(std::string &strError) const;
+
     // From IXmlSink
     bool fromXml(const CXmlElement &xmlElement,
                  CXmlSerializingContext &serializingContext) override;
diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index 30d9fb0..7da84d0 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -529,6 +529,12 @@ bool CParameterMgr::loadStructure(string &strError)
         }
     }
 
+    // Elements are accessed through their path
+    if (!pSystemClass->checkDescendantNames(strError)) {
+
+        return false;
+    }
+
     // Initialize offsets
     pSystemClass->setOffset(0);
 
-- 
2.43.0


From 22c03cd900d9b11078f6de5af0536a7270f87480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:21 +0000
Subject: [PATCH 41/54] fix: refuse array indices that are not plain numbers in
 paths

An index such as "1x" was taken as 1, making the element reachable through
paths that are not its own.
---
 parameter/ArrayParameter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parameter/ArrayParameter.cpp b/parameter/ArrayParameter.cpp
index 8daba17..575923b 100644
--- a/parameter/ArrayParameter.cpp
+++ b/parameter/ArrayParameter.cpp
@@ -214,7 +214,7 @@ bool CArrayParameter::getIndex(CPathNavigator &pathNavigator, size_t &index,
 
         iss >> index;
 
-        if (!iss) {
+        if (!iss || pStrChildName->find_first_not_of("0123456789") != string::npos) {
 
             parameterAccessContext.setError("Expected numerical expression as last item in " +
                                             pathNavigator.getCurrentPath());
-- 
2.43.0


From 7a0406f55ab8eaa229afb99e97de223cac1ed43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:36 +0000
Subject: [PATCH 42/54] fix: refuse misplaced elements in the framework
 configuration

A child of SubsystemPlugins other than Location (or of SettingsConfiguration
other than ConfigurableDomainsFileLocation) was created by name and then
static_cast to the expected class.
---
 parameter/FrameworkConfigurationGroup.h       | 4 ++++
 parameter/ParameterFrameworkConfiguration.cpp | 7 +++++++
 parameter/ParameterFrameworkConfiguration.h   | 1 +
 parameter/ParameterMgr.cpp                    | 2 +-
 parameter/SubsystemPlugins.h                  | 4 ++++
 5 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/parameter/FrameworkConfigurationGroup.h b/parameter/FrameworkConfigurationGroup.h
index 27fdc18..faf43ab 100644
--- a/parameter/FrameworkConfigurationGroup.h
+++ b/parameter/FrameworkConfigurationGroup.h
@@ -43,4 +43,8 @@ public:
 
 private:
     bool childrenAreDynamic() const override { return true; }
+    bool acceptsChild(const std::string &xmlElementType) const override
+    {
+        return xmlElementType == "ConfigurableDomainsFileLocation";
+    }
 };
diff --git a/parameter/ParameterFrameworkConfiguration.cpp b/parameter/ParameterFrameworkConfiguration.cpp
index bf735fd..f2666d4 100644
--- a/parameter/ParameterFrameworkConfiguration.cpp
+++ b/parameter/ParameterFrameworkConfiguration.cpp
@@ -41,6 +41,13 @@ bool CParameterFrameworkConfiguration::childrenAreDynamic() const
     return true;
 }
 
+bool CParameterFrameworkConfiguration::acceptsChild(const std::string &xmlElementType) const
+{
+    return xmlElementType == "SubsystemPlugins" ||
+           xmlElementType == "StructureDescriptionFileLocation" ||
+           xmlElementType == "SettingsConfiguration";
+}
+
 // System class name
 const std::string &CParameterFrameworkConfiguration::getSystemClassName() const
 {
diff --git a/parameter/ParameterFrameworkConfiguration.h b/parameter/ParameterFrameworkConfiguration.h
index 8972beb..6bc71f6 100644
--- a/parameter/ParameterFrameworkConfiguration.h
+++ b/parameter/ParameterFrameworkConfiguration.h
@@ -52,6 +52,7 @@ public:
 private:
     std::string getKind() const override;
     bool childrenAreDynamic() const override;
+    bool acceptsChild(const std::string &xmlElementType) const override;
 
     // System class name
     std::string _strSystemClassName;
diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index 7da84d0..ce2f955 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -449,7 +449,7 @@ bool CParameterMgr::loadFrameworkConfiguration(string &strError)
 
     // Get subsystem plugins elements
     _pSubsystemPlugins = static_cast<const CSubsystemPlugins *>(
-        getConstFrameworkConfiguration()->findChild("SubsystemPlugins"));
+        getConstFrameworkConfiguration()->findChildOfKind("SubsystemPlugins"));
 
     if (!_pSubsystemPlugins) {
 
diff --git a/parameter/SubsystemPlugins.h b/parameter/SubsystemPlugins.h
index 5123c28..5bcdd0c 100644
--- a/parameter/SubsystemPlugins.h
+++ b/parameter/SubsystemPlugins.h
@@ -43,4 +43,8 @@ public:
 
 private:
     bool childrenAreDynamic() const override { return true; }
+    bool acceptsChild(const std::string &xmlElementType) const override
+    {
+        return xmlElementType == "Location";
+    }
 };
-- 
2.43.0


From ff37d2c1765eb1aed14bdaeb921133a504c2714b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:05 +0000
Subject: [PATCH 43/54] fix: refuse a framework configuration with a bad
 attribute instead of throwing

---
 parameter/ParameterFrameworkConfiguration.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parameter/ParameterFrameworkConfiguration.cpp b/parameter/ParameterFrameworkConfiguration.cpp
index f2666d4..6b3e293 100644
--- a/parameter/ParameterFrameworkConfiguration.cpp
+++ b/parameter/ParameterFrameworkConfiguration.cpp
@@ -28,6 +28,7 @@
  * SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 #include "ParameterFrameworkConfiguration.h"
+#include "PfError.hpp"
 
 #define base CElement
 
@@ -69,7 +70,7 @@ uint16_t CParameterFrameworkConfiguration::getServerPort() const
 // From IXmlSink
 bool CParameterFrameworkConfiguration::fromXml(const CXmlElement &xmlElement,
                                                CXmlSerializingContext &serializingContext)
-{
+try {
     // System class name
     xmlElement.getAttribute("SystemClassName", _strSystemClassName);
 
@@ -81,4 +82,8 @@ bool CParameterFrameworkConfiguration::fromXml(const CXmlElement &xmlElement,
 
     // Base
     return base::fromXml(xmlElement, serializingContext);
+} catch (const PfError &e) {
+    // As the whole document is this element, nobody else would catch it
+    serializingContext.setError(xmlElement.getPath() + ": " + e.what());
+    return false;
 }
-- 
2.43.0


From 2ac0236ccb2ea62333fb4597dafdc460656e69b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:12 +0000
Subject: [PATCH 44/54] fix: do not abort when an instance that failed to
 listen is destroyed

---
 remote-processor/BackgroundRemoteProcessorServer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/remote-processor/BackgroundRemoteProcessorServer.cpp b/remote-processor/BackgroundRemoteProcessorServer.cpp
index 0820786..b798ac5 100644
--- a/remote-processor/BackgroundRemoteProcessorServer.cpp
+++ b/remote-processor/BackgroundRemoteProcessorServer.cpp
@@ -55,7 +55,8 @@ bool BackgroundRemoteProcessorServer::start(std::string &error)
 bool BackgroundRemoteProcessorServer::stop()
 {
     _server->stop();
-    return mServerSuccess.get();
+    // There is nothing to wait for if the server failed to start
+    return not mServerSuccess.valid() or mServerSuccess.get();
 }
 
 BackgroundRemoteProcessorServer::~BackgroundRemoteProcessorServer()
-- 
2.43.0


From 7e752e09c25cd07cc335fa7805495c568210de9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:05 +0000
Subject: [PATCH 45/54] fix: do not take a criterion whose name begins with ANY
 or ALL for an operator

---
 tools/xmlGenerator/EddParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/xmlGenerator/EddParser.py b/tools/xmlGenerator/EddParser.py
index 7f8a5b9..dc22b5d 100755
--- a/tools/xmlGenerator/EddParser.py
+++ b/tools/xmlGenerator/EddParser.py
@@ -402,7 +402,7 @@ class Operator (Rule) :
 
     tag = "operator"
     optionNames = ["Name"]
-    match = re.compile(r"ANY|ALL").match
+    match = re.compile(r"(ANY|ALL)\s*$").match
     childWhiteList = ["Rule", "Operator"]
 
     syntax = { "ANY" : "Any" , "ALL" : "All"}
-- 
2.43.0


From 4b380e389f21e56b1dbfe44e56943af2aaa9f14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:27 +0000
Subject: [PATCH 46/54] fix: keep the order of a description's parameters in
 element sequences

---
 tools/xmlGenerator/EddParser.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/tools/xmlGenerator/EddParser.py b/tools/xmlGenerator/EddParser.py
index dc22b5d..e010522 100755
--- a/tools/xmlGenerator/EddParser.py
+++ b/tools/xmlGenerator/EddParser.py
@@ -354,13 +354,12 @@ class GroupPath (Path, ElementWithTag) :
 
         pathNames = []
 
-        paths = self.extractChildrenByClass([Path])
-        for path in paths :
-            pathNames.append(path.getName())
-
-        groupPaths = self.extractChildrenByClass([GroupPath])
-        for groupPath in groupPaths :
-            pathNames += groupPath.getPathNames()
+        # keep the order of the description: it is that of the element sequence
+        for child in self.extractChildrenByClass([Path, GroupPath]) :
+            if isinstance(child, GroupPath) :
+                pathNames += child.getPathNames()
+            else :
+                pathNames.append(child.getName())
 
         return pathNames
 
-- 
2.43.0


From bb1d8ee0aab006cea53d8c4c951107d5b9547cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:52 +0000
Subject: [PATCH 47/54] fix: let the domain generator run without --schemas-dir

---
 tools/xmlGenerator/domainGenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/xmlGenerator/domainGenerator.py b/tools/xmlGenerator/domainGenerator.py
index 12a26f1..3a1a026 100755
--- a/tools/xmlGenerator/domainGenerator.py
+++ b/tools/xmlGenerator/domainGenerator.py
@@ -77,7 +77,7 @@ def parseArgs():
     argparser.add_argument('--schemas-dir',
             help="Directory of parameter-framework XML Schemas for generation \
         validation",
-            default=None)
+            default='')
     argparser.add_argument('--target-schemas-dir',
             help="Ignored. Kept for retro-compatibility")
     argparser.add_argument('--validate',
-- 
2.43.0


From c36c746fa4ba02cc4608d0c70f567bb133cda723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:28 +0000
Subject: [PATCH 48/54] fix: let the domain generator accept non-ASCII
 framework configurations

---
 tools/xmlGenerator/hostConfig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/xmlGenerator/hostConfig.py b/tools/xmlGenerator/hostConfig.py
index 871f8f2..3f0c44b 100755
--- a/tools/xmlGenerator/hostConfig.py
+++ b/tools/xmlGenerator/hostConfig.py
@@ -55,7 +55,7 @@ def configure(infile=sys.stdin, outfile=sys.stdout, serverPort=None, structPath=
         for node in dom.getElementsByTagName("StructureDescriptionFileLocation"):
             node.setAttribute("Path", structPath + "/" + node.getAttribute("Path"))
 
-    outfile.write(dom.toxml())
+    outfile.write(dom.toxml().encode('utf-8'))
 
 if __name__ == "__main__" :
     """ Execute main if the python interpreter is running this module as the main program """
-- 
2.43.0


From 10c6e7ba26cb97690306e9571a1293a32c54d324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:59 +0000
Subject: [PATCH 49/54] fix: let the domain generator follow absolute structure
 paths

---
 tools/xmlGenerator/hostConfig.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/xmlGenerator/hostConfig.py b/tools/xmlGenerator/hostConfig.py
index 3f0c44b..9f9cec5 100755
--- a/tools/xmlGenerator/hostConfig.py
+++ b/tools/xmlGenerator/hostConfig.py
@@ -29,6 +29,7 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+import os
 import xml.dom.minidom
 import sys
 
@@ -53,7 +54,7 @@ def configure(infile=sys.stdin, outfile=sys.stdout, serverPort=None, structPath=
 
     if structPath is not None:
         for node in dom.getElementsByTagName("StructureDescriptionFileLocation"):
-            node.setAttribute("Path", structPath + "/" + node.getAttribute("Path"))
+            node.setAttribute("Path", os.path.join(structPath, node.getAttribute("Path")))
 
     outfile.write(dom.toxml().encode('utf-8'))
 
-- 
2.43.0


From 9a6e7b5748b358361e245a189f725f9de3675c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:35 +0000
Subject: [PATCH 50/54] fix: show the range of 8 bit integers as numbers, in
 the properties and the refusals

---
 parameter/IntegerParameterType.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/parameter/IntegerParameterType.h b/parameter/IntegerParameterType.h
index b53a347..880bae0 100644
--- a/parameter/IntegerParameterType.h
+++ b/parameter/IntegerParameterType.h
@@ -302,8 +302,8 @@ public:
 
         std::ostringstream stream;
         stream << "Signed: " << (isSigned ? "yes" : "no") << "\n"
-               << "Min: " << _min << "\n"
-               << "Max: " << _max << "\n";
+               << "Min: " << std::to_string(_min) << "\n"
+               << "Max: " << std::to_string(_max) << "\n";
 
         strResult += stream.str();
 
@@ -343,16 +343,16 @@ public:
 
             if (bHexaValue) {
 
-                stream << "0x" << std::hex << std::uppercase
-                       << std::setw(static_cast<int>(getSize() * 2)) << std::setfill('0');
+                const int width = static_cast<int>(getSize() * 2);
+                stream << std::hex << std::uppercase << std::setfill('0');
                 // Format Min
-                stream << _min;
+                stream << "0x" << std::setw(width) << toHexaDigits(_min) << ", ";
                 // Format Max
-                stream << _max;
+                stream << "0x" << std::setw(width) << toHexaDigits(_max);
 
             } else {
 
-                stream << _min << ", " << _max;
+                stream << std::to_string(_min) << ", " << std::to_string(_max);
             }
 
             stream << "] for " << getKind();
@@ -365,6 +365,12 @@ public:
     }
 
 private:
+    // Unsigned and wide enough for 8 bit values not to be streamed as characters
+    static uint64_t toHexaDigits(CType value)
+    {
+        return static_cast<typename std::make_unsigned<CType>::type>(value);
+    }
+
     // Range
     CType _min{std::numeric_limits<CType>::min()};
     CType _max{std::numeric_limits<CType>::max()};
-- 
2.43.0


From a618b3edfa72d8702ac2b345b740c94770baca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:00 +0000
Subject: [PATCH 51/54] fix: an element handle tells the description its
 element was given

---
 parameter/Element.cpp                     | 9 ++++-----
 parameter/Element.h                       | 2 +-
 parameter/InstanceConfigurableElement.cpp | 5 +++++
 parameter/InstanceConfigurableElement.h   | 3 +++
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/parameter/Element.cpp b/parameter/Element.cpp
index a694540..fd1a146 100644
--- a/parameter/Element.cpp
+++ b/parameter/Element.cpp
@@ -136,8 +136,8 @@ void CElement::showProperties(string &strResult) const
 
 void CElement::showDescriptionProperty(std::string &strResult) const
 {
-    if (!getDescription().empty()) {
-        strResult += gDescriptionPropertyName + ": " + getDescription() + "\n";
+    if (!_strDescription.empty()) {
+        strResult += gDescriptionPropertyName + ": " + _strDescription + "\n";
     }
 }
 
@@ -221,9 +221,8 @@ void CElement::toXml(CXmlElement &xmlElement, CXmlSerializingContext &serializin
 
 void CElement::setXmlDescriptionAttribute(CXmlElement &xmlElement) const
 {
-    const string &description = getDescription();
-    if (!description.empty()) {
-        xmlElement.setAttribute(gDescriptionPropertyName, description);
+    if (!_strDescription.empty()) {
+        xmlElement.setAttribute(gDescriptionPropertyName, _strDescription);
     }
 }
 
diff --git a/parameter/Element.h b/parameter/Element.h
index daad4d8..1367100 100644
--- a/parameter/Element.h
+++ b/parameter/Element.h
@@ -53,7 +53,7 @@ public:
 
     // Description
     void setDescription(const std::string &strDescription);
-    const std::string &getDescription() const;
+    virtual const std::string &getDescription() const;
 
     // Name / Path
     const std::string &getName() const;
diff --git a/parameter/InstanceConfigurableElement.cpp b/parameter/InstanceConfigurableElement.cpp
index 25a7ec9..8932e4d 100644
--- a/parameter/InstanceConfigurableElement.cpp
+++ b/parameter/InstanceConfigurableElement.cpp
@@ -56,6 +56,11 @@ std::string CInstanceConfigurableElement::getXmlElementName() const
 }
 
 // Type element
+const std::string &CInstanceConfigurableElement::getDescription() const
+{
+    return getTypeElement()->getDescription();
+}
+
 const CTypeElement *CInstanceConfigurableElement::getTypeElement() const
 {
     return _pTypeElement;
diff --git a/parameter/InstanceConfigurableElement.h b/parameter/InstanceConfigurableElement.h
index d1b52f1..1b05dbe 100644
--- a/parameter/InstanceConfigurableElement.h
+++ b/parameter/InstanceConfigurableElement.h
@@ -59,6 +59,9 @@ public:
     // Instantiated type
     const CTypeElement *getTypeElement() const;
 
+    /** @return the description of the type, an instance has none of its own */
+    const std::string &getDescription() const override;
+
     bool getMappingData(const std::string &strKey, const std::string *&pStrValue) const override;
 
     /**
-- 
2.43.0


From aca47772a455b34c40caa46f1357ec1189ee7b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:10 +0000
Subject: [PATCH 52/54] fix: export the attributes of adaptations with the
 structure

The structure exported as XML named the adaptation of a parameter without
its offset, slope, logarithm base and floor.
---
 parameter/LinearParameterAdaptation.cpp      | 11 +++++++++++
 parameter/LinearParameterAdaptation.h        |  3 +++
 parameter/LogarithmicParameterAdaptation.cpp | 14 ++++++++++++++
 parameter/LogarithmicParameterAdaptation.h   |  2 ++
 parameter/ParameterAdaptation.cpp            | 10 ++++++++++
 parameter/ParameterAdaptation.h              |  3 +++
 6 files changed, 43 insertions(+)

diff --git a/parameter/LinearParameterAdaptation.cpp b/parameter/LinearParameterAdaptation.cpp
index 5c8002d..1af4d49 100644
--- a/parameter/LinearParameterAdaptation.cpp
+++ b/parameter/LinearParameterAdaptation.cpp
@@ -78,6 +78,17 @@ bool CLinearParameterAdaptation::fromXml(const CXmlElement &xmlElement,
     return base::fromXml(xmlElement, serializingContext);
 }
 
+// From IXmlSource
+void CLinearParameterAdaptation::toXml(CXmlElement &xmlElement,
+                                       CXmlSerializingContext &serializingContext) const
+{
+    xmlElement.setAttribute("SlopeNumerator", _dSlopeNumerator);
+    xmlElement.setAttribute("SlopeDenominator", _dSlopeDenominator);
+
+    // Base
+    base::toXml(xmlElement, serializingContext);
+}
+
 // Conversions
 int64_t CLinearParameterAdaptation::fromUserValue(double dValue) const
 {
diff --git a/parameter/LinearParameterAdaptation.h b/parameter/LinearParameterAdaptation.h
index ac349af..b3b1490 100644
--- a/parameter/LinearParameterAdaptation.h
+++ b/parameter/LinearParameterAdaptation.h
@@ -50,6 +50,9 @@ public:
     bool fromXml(const CXmlElement &xmlElement,
                  CXmlSerializingContext &serializingContext) override;
 
+    // From IXmlSource
+    void toXml(CXmlElement &xmlElement, CXmlSerializingContext &serializingContext) const override;
+
 private:
     // Slope attributes
     double _dSlopeNumerator{1};
diff --git a/parameter/LogarithmicParameterAdaptation.cpp b/parameter/LogarithmicParameterAdaptation.cpp
index 128ab07..8816c7b 100644
--- a/parameter/LogarithmicParameterAdaptation.cpp
+++ b/parameter/LogarithmicParameterAdaptation.cpp
@@ -73,6 +73,20 @@ bool CLogarithmicParameterAdaptation::fromXml(const CXmlElement &xmlElement,
     return base::fromXml(xmlElement, serializingContext);
 }
 
+void CLogarithmicParameterAdaptation::toXml(CXmlElement &xmlElement,
+                                            CXmlSerializingContext &serializingContext) const
+{
+    xmlElement.setAttribute("LogarithmBase", _dLogarithmBase);
+
+    // The default floor is infinite, which only the absence of the attribute can express
+    if (std::isfinite(_dFloorValue)) {
+        xmlElement.setAttribute("FloorValue", _dFloorValue);
+    }
+
+    // Base
+    base::toXml(xmlElement, serializingContext);
+}
+
 int64_t CLogarithmicParameterAdaptation::fromUserValue(double value) const
 {
     return std::max(base::fromUserValue(log(value) / log(_dLogarithmBase)),
diff --git a/parameter/LogarithmicParameterAdaptation.h b/parameter/LogarithmicParameterAdaptation.h
index fc3d3d6..8eb6356 100644
--- a/parameter/LogarithmicParameterAdaptation.h
+++ b/parameter/LogarithmicParameterAdaptation.h
@@ -61,6 +61,8 @@ public:
     bool fromXml(const CXmlElement &xmlElement,
                  CXmlSerializingContext &serializingContext) override;
 
+    void toXml(CXmlElement &xmlElement, CXmlSerializingContext &serializingContext) const override;
+
 private:
     /**
      * _dLogarithmBase characterizes the new logarithm logB(x) with
diff --git a/parameter/ParameterAdaptation.cpp b/parameter/ParameterAdaptation.cpp
index 67b4bca..c8958eb 100644
--- a/parameter/ParameterAdaptation.cpp
+++ b/parameter/ParameterAdaptation.cpp
@@ -72,6 +72,16 @@ bool CParameterAdaptation::fromXml(const CXmlElement &xmlElement,
     return base::fromXml(xmlElement, serializingContext);
 }
 
+// From IXmlSource
+void CParameterAdaptation::toXml(CXmlElement &xmlElement,
+                                 CXmlSerializingContext &serializingContext) const
+{
+    xmlElement.setAttribute("Offset", _iOffset);
+
+    // Base
+    base::toXml(xmlElement, serializingContext);
+}
+
 // Conversions
 int64_t CParameterAdaptation::fromUserValue(double dValue) const
 {
diff --git a/parameter/ParameterAdaptation.h b/parameter/ParameterAdaptation.h
index d600161..892e15e 100644
--- a/parameter/ParameterAdaptation.h
+++ b/parameter/ParameterAdaptation.h
@@ -45,6 +45,9 @@ public:
     bool fromXml(const CXmlElement &xmlElement,
                  CXmlSerializingContext &serializingContext) override;
 
+    // From IXmlSource
+    void toXml(CXmlElement &xmlElement, CXmlSerializingContext &serializingContext) const override;
+
     // Conversions
     virtual int64_t fromUserValue(double dValue) const;
     virtual double toUserValue(int64_t iValue) const;
-- 
2.43.0


From f95d24f13bcf019daad878fb40e07a4ee5805c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:01 +0000
Subject: [PATCH 53/54] fix: show and export floating point attributes with all
 their digits

The ranges of floating point parameters and the coefficients of adaptations
were cut at six decimals, so that small ones were shown and exported as 0.
---
 parameter/FloatingPointParameterType.cpp     |  3 +-
 parameter/LinearParameterAdaptation.cpp      |  5 +--
 parameter/LogarithmicParameterAdaptation.cpp |  5 +--
 utility/Utility.h                            | 34 ++++++++++++++++++++
 xmlserializer/XmlElement.cpp                 | 13 ++++++++
 5 files changed, 55 insertions(+), 5 deletions(-)

diff --git a/parameter/FloatingPointParameterType.cpp b/parameter/FloatingPointParameterType.cpp
index cdaafa9..ed4361d 100644
--- a/parameter/FloatingPointParameterType.cpp
+++ b/parameter/FloatingPointParameterType.cpp
@@ -55,7 +55,8 @@ void CFloatingPointParameterType::showProperties(string &strResult) const
 {
     base::showProperties(strResult);
 
-    strResult += "Min:" + std::to_string(_fMin) + "\n" + "Max:" + std::to_string(_fMax) + "\n";
+    strResult += "Min:" + utility::floatAsString(_fMin) + "\n" + "Max:" +
+                 utility::floatAsString(_fMax) + "\n";
 }
 
 void CFloatingPointParameterType::handleValueSpaceAttribute(
diff --git a/parameter/LinearParameterAdaptation.cpp b/parameter/LinearParameterAdaptation.cpp
index 1af4d49..121683e 100644
--- a/parameter/LinearParameterAdaptation.cpp
+++ b/parameter/LinearParameterAdaptation.cpp
@@ -28,6 +28,7 @@
  * SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 #include "LinearParameterAdaptation.h"
+#include "Utility.h"
 
 #define base CParameterAdaptation
 
@@ -48,12 +49,12 @@ void CLinearParameterAdaptation::showProperties(string &strResult) const
 
     // SlopeNumerator
     strResult += " - SlopeNumerator: ";
-    strResult += std::to_string(_dSlopeNumerator);
+    strResult += utility::floatAsString(_dSlopeNumerator);
     strResult += "\n";
 
     // SlopeDenominator
     strResult += " - SlopeDenominator: ";
-    strResult += std::to_string(_dSlopeDenominator);
+    strResult += utility::floatAsString(_dSlopeDenominator);
     strResult += "\n";
 }
 
diff --git a/parameter/LogarithmicParameterAdaptation.cpp b/parameter/LogarithmicParameterAdaptation.cpp
index 8816c7b..ce23582 100644
--- a/parameter/LogarithmicParameterAdaptation.cpp
+++ b/parameter/LogarithmicParameterAdaptation.cpp
@@ -29,6 +29,7 @@
  */
 
 #include "LogarithmicParameterAdaptation.h"
+#include "Utility.h"
 #include <cmath>
 #include <limits>
 #include <algorithm>
@@ -48,10 +49,10 @@ void CLogarithmicParameterAdaptation::showProperties(std::string &strResult) con
     base::showProperties(strResult);
 
     strResult += " - LogarithmBase: ";
-    strResult += std::to_string(_dLogarithmBase);
+    strResult += utility::floatAsString(_dLogarithmBase);
     strResult += "\n";
     strResult += " - FloorValue: ";
-    strResult += std::to_string(_dFloorValue);
+    strResult += utility::floatAsString(_dFloorValue);
     strResult += "\n";
 }
 
diff --git a/utility/Utility.h b/utility/Utility.h
index 0f2aec3..91beefe 100644
--- a/utility/Utility.h
+++ b/utility/Utility.h
@@ -31,7 +31,9 @@
 #pragma once
 
 #include <string>
+#include <limits>
 #include <list>
+#include <locale>
 #include <map>
 #include <sstream>
 #include <numeric>
@@ -109,4 +111,36 @@ void appendTitle(std::string &strTo, const std::string &strTitle);
  */
 bool isHexadecimal(const std::string &strValue);
 
+/**
+ * Format a floating point number with as few digits as it takes to read the same number back.
+ *
+ * @tparam T float or double
+ * @param[in] value the number to format
+ *
+ * @return the number as text
+ */
+template <class T>
+std::string floatAsString(T value)
+{
+    static_assert(std::is_floating_point<T>::value, "floatAsString is for floating point numbers");
+
+    int digits = std::numeric_limits<T>::digits10;
+    while (true) {
+        std::ostringstream stream;
+        stream.imbue(std::locale::classic());
+        stream.precision(digits);
+        stream << value;
+
+        T readBack{};
+        std::istringstream reader(stream.str());
+        reader.imbue(std::locale::classic());
+
+        if (digits == std::numeric_limits<T>::max_digits10 ||
+            ((reader >> readBack) && readBack == value)) {
+            return stream.str();
+        }
+        digits++;
+    }
+}
+
 } // namespace utility
diff --git a/xmlserializer/XmlElement.cpp b/xmlserializer/XmlElement.cpp
index 9c3950d..2fbdd71 100644
--- a/xmlserializer/XmlElement.cpp
+++ b/xmlserializer/XmlElement.cpp
@@ -31,6 +31,7 @@
 #include "PfError.hpp"
 #include <libxml/tree.h>
 #include "convert.hpp"
+#include "Utility.h"
 #include <stdlib.h>
 #include <stdexcept>
 
@@ -212,6 +213,18 @@ void CXmlElement::setAttribute(const string &name, const char *value)
     xmlNewProp(_pXmlElement, BAD_CAST name.c_str(), BAD_CAST value);
 }
 
+template <>
+void CXmlElement::setAttribute<float>(const string &name, const float &value)
+{
+    setAttribute(name, utility::floatAsString(value));
+}
+
+template <>
+void CXmlElement::setAttribute<double>(const string &name, const double &value)
+{
+    setAttribute(name, utility::floatAsString(value));
+}
+
 template <typename T>
 void CXmlElement::setAttribute(const std::string &name, const T &value)
 {
-- 
2.43.0


From a8cfc40202ec7fbf30afd343e3d92d3ce0205878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:57 +0000
Subject: [PATCH 54/54] fix: domainGeneratorConnector reports settings it could
 not print

With the standard output on a full disk it printed the first part of the
settings and exited with 0.
---
 tools/xmlGenerator/domainGeneratorConnector.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/xmlGenerator/domainGeneratorConnector.cpp b/tools/xmlGenerator/domainGeneratorConnector.cpp
index a83822f..a09deb2 100644
--- a/tools/xmlGenerator/domainGeneratorConnector.cpp
+++ b/tools/xmlGenerator/domainGeneratorConnector.cpp
@@ -228,7 +228,10 @@ void XmlGenerator::exportDomains(std::ostream &output)
     if (not mConnector.exportDomainsXml(domains, true, false, error)) {
         throw Exception("Export failed: " + error);
     } else {
-        output << domains;
+        output << domains << std::flush;
+        if (not output) {
+            throw Exception("Export failed: unable to write the domains");
+        }
     }
 }
 
-- 
2.43.0

