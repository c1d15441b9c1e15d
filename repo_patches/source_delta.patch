From ab3390410cbe6ac2c94b61f4bb628012ffc5830d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 01/47] fix: duplicate of a master component is its own master,
 not an instance of the original

---
 src/pycalendar/icalendar/componentrecur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index c3feef0..ad3c535 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -100,7 +100,7 @@ class ComponentRecur(Component):
         other = super(ComponentRecur, self).duplicate(parent=parent)
 
         # Special determination of master
-        other.mMaster = self.mMaster if self.recurring() else self
+        other.mMaster = self.mMaster if self.recurring() else other
 
         other.mMapKey = self.mMapKey
 
-- 
2.43.0


From dab4b461abd6915ccca255b28acd84a2231b6d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 02/47] fix: duplicate of an alarm keeps its status-initialised
 flag and copies its attendee list

---
 src/pycalendar/icalendar/valarm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index e1876ff..c4cca4c 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -181,7 +181,7 @@ class VAlarm(Component):
             self.mAttendees = attendees
 
         def duplicate(self):
-            return VAlarm.VAlarmEmail(self.mDescription, self.mSummary, self.mAttendees)
+            return VAlarm.VAlarmEmail(self.mDescription, self.mSummary, self.mAttendees[:] if self.mAttendees is not None else None)
 
         def load(self, valarm):
             # Get properties
@@ -348,6 +348,7 @@ class VAlarm(Component):
         other.mRepeats = self.mRepeats
         other.mRepeatInterval = self.mRepeatInterval.duplicate()
 
+        other.mStatusInit = self.mStatusInit
         other.mAlarmStatus = self.mAlarmStatus
         if self.mLastTrigger is not None:
             other.mLastTrigger = self.mLastTrigger.duplicate()
-- 
2.43.0


From e07a6c16512e59f4b16a146117d303e0946dcab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 03/47] fix: duplicate of a recurrence rule does not share
 remembered instances with the original

---
 src/pycalendar/icalendar/recurrence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index a186af8..4e07f48 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -138,7 +138,7 @@ class Recurrence(ValueMixin):
             other.mCacheUpto = self.mCacheUpto.duplicate()
         other.mFullyCached = self.mFullyCached
         if self.mRecurrences:
-            other.mRecurrences = self.mRecurrences[:]
+            other.mRecurrences = [item.duplicate() for item in self.mRecurrences]
 
         return other
 
-- 
2.43.0


From 9594ba4cc55effbbb0af68b6e0888b22709b1731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:42 +0000
Subject: [PATCH 04/47] fix: a zone offset looked up relative to UTC is not
 remembered as the local offset of a date-time

---
 src/pycalendar/datetime.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 4635a39..7a93108 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -1103,6 +1103,10 @@ class DateTime(ValueMixin):
     def timeZoneSecondsOffset(self, relative_to_utc=False):
         if self.mTZUTC:
             return 0
+        if relative_to_utc:
+            # Only the offset for local time is cached
+            tz = Timezone(utc=self.mTZUTC, tzid=self.mTZID)
+            return tz.timeZoneSecondsOffset(self, relative_to_utc)
         if self.mTZOffset is None:
             tz = Timezone(utc=self.mTZUTC, tzid=self.mTZID)
             self.mTZOffset = tz.timeZoneSecondsOffset(self, relative_to_utc)
-- 
2.43.0


From 18af3867d2e0603ccafb03bf8add472416956329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:30 +0000
Subject: [PATCH 05/47] fix: component delimiters that do not nest, and
 truncated single-component data, are rejected

---
 src/pycalendar/containerbase.py      |  8 ++++++++
 src/pycalendar/icalendar/calendar.py | 17 +++++++++++++++--
 src/pycalendar/vcard/card.py         |  4 ++++
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/containerbase.py b/src/pycalendar/containerbase.py
index 9858774..b585783 100644
--- a/src/pycalendar/containerbase.py
+++ b/src/pycalendar/containerbase.py
@@ -163,6 +163,10 @@ class ContainerBase(ComponentBase):
                 # Look for end of object
                 elif line == self.getEndDelimiter():
 
+                    # Every component must have been closed first
+                    if comp is not self:
+                        raise InvalidData("%s data has unterminated component" % (self.sContainerDescriptor,), line)
+
                     # Finalise the current calendar
                     self.finalise()
 
@@ -191,6 +195,10 @@ class ContainerBase(ComponentBase):
                     # Parse parameter/value for top-level calendar item
                     prop = self.sPropertyType.parseText(line)
 
+                    # A delimiter that does not match the current component is not a property
+                    if prop.getName().upper() in ("BEGIN", "END"):
+                        raise InvalidData("%s data has mismatched component delimiter" % (self.sContainerDescriptor,), line)
+
                     # Check for valid property
                     if comp is self:
                         if not comp.validProperty(prop):
diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 50a9615..2f243ef 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -260,6 +260,10 @@ class Calendar(ContainerBase):
 
                 elif line == self.getEndDelimiter():
 
+                    # Every component must have been closed first
+                    if comp is not self:
+                        raise InvalidData("iCalendar data has unterminated component", line)
+
                     # Change state
                     state = GOT_VCALENDAR
 
@@ -279,9 +283,10 @@ class Calendar(ContainerBase):
                     if ParserContext.BLANK_LINES_IN_DATA == ParserContext.PARSER_RAISE:
                         raise InvalidData("iCalendar data has blank lines")
 
-                # Ignore top-level items
+                # Ignore top-level items, except for delimiters that do not match
                 elif comp is self:
-                    pass
+                    if line.upper().startswith(("BEGIN:", "END:")):
+                        raise InvalidData("iCalendar data has mismatched component delimiter", line)
 
                 # Must be a property
                 else:
@@ -289,6 +294,10 @@ class Calendar(ContainerBase):
                     # Parse parameter/value for top-level calendar item
                     prop = self.sPropertyType.parseText(line)
 
+                    # A delimiter that does not match the current component is not a property
+                    if prop.getName().upper() in ("BEGIN", "END"):
+                        raise InvalidData("iCalendar data has mismatched component delimiter", line)
+
                     # Check for valid property
                     if comp is not self:
                         comp.addProperty(prop)
@@ -297,6 +306,10 @@ class Calendar(ContainerBase):
             if state == GOT_VCALENDAR:
                 break
 
+        # Check for truncated data
+        if state == GET_PROPERTY_OR_COMPONENT:
+            raise InvalidData("iCalendar data not complete")
+
         # We need to store all timezones in the static object so they can be accessed by any date object
         # Only do this if we read in a timezone
         if got_timezone:
diff --git a/src/pycalendar/vcard/card.py b/src/pycalendar/vcard/card.py
index 8a3f1d8..d1a2d19 100644
--- a/src/pycalendar/vcard/card.py
+++ b/src/pycalendar/vcard/card.py
@@ -143,6 +143,10 @@ class Card(ContainerBase):
                     # Parse parameter/value for top-level calendar item
                     prop = Property.parseText(line)
 
+                    # A delimiter that does not match the card is not a property
+                    if prop.getName().upper() in ("BEGIN", "END"):
+                        raise InvalidData("vCard data has mismatched delimiter", line)
+
                     # Check for valid property
                     if not card.validProperty(prop):
                         raise InvalidData("Invalid property", str(prop))
-- 
2.43.0


From f72be2590023ebcac31c59f40092680236c3b6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH 06/47] fix: a time zone identifier cannot name a file in a
 sibling of the time zone database directory

---
 src/pycalendar/timezonedb.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/timezonedb.py b/src/pycalendar/timezonedb.py
index 55b64ae..127dfab 100644
--- a/src/pycalendar/timezonedb.py
+++ b/src/pycalendar/timezonedb.py
@@ -114,9 +114,10 @@ class TimezoneDatabase(object):
         if self.dbpath is None:
             return
 
-        tzpath = os.path.join(self.dbpath, "%s.ics" % (tzid,))
-        tzpath = os.path.normpath(tzpath)
-        if tzpath.startswith(self.dbpath) and os.path.isfile(tzpath):
+        dbpath = os.path.abspath(self.dbpath)
+        tzpath = os.path.join(dbpath, "%s.ics" % (tzid,))
+        tzpath = os.path.abspath(tzpath)
+        if tzpath.startswith(os.path.join(dbpath, "")) and os.path.isfile(tzpath):
             try:
                 with open(tzpath) as f:
                     self.calendar.parseComponent(f)
-- 
2.43.0


From 7344f33ec4c33d54eca3df4320defb76502e4727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:21 +0000
Subject: [PATCH 07/47] fix: recurrence sets can be compared for equality

---
 src/pycalendar/icalendar/recurrenceset.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrenceset.py b/src/pycalendar/icalendar/recurrenceset.py
index 898c6f6..b409ba1 100644
--- a/src/pycalendar/icalendar/recurrenceset.py
+++ b/src/pycalendar/icalendar/recurrenceset.py
@@ -47,23 +47,23 @@ class RecurrenceSet(object):
 
     def equals(self, comp):
         # Look at RRULEs
-        if not self.equalsRules(self.mRrules, comp.self.mRrules):
+        if not self.equalsRules(self.mRrules, comp.mRrules):
             return False
 
         # Look at EXRULEs
-        if not self.equalsRules(self.mExrules, comp.self.mExrules):
+        if not self.equalsRules(self.mExrules, comp.mExrules):
             return False
 
         # Look at RDATEs
-        if not self.equalsDates(self.mRdates, comp.self.mRdates):
+        if not self.equalsDates(self.mRdates, comp.mRdates):
             return False
-        if not self.equalsPeriods(self.mRperiods, comp.self.mRperiods):
+        if not self.equalsPeriods(self.mRperiods, comp.mRperiods):
             return False
 
         # Look at EXDATEs
-        if not self.equalsDates(self.mExdates, comp.self.mExdates):
+        if not self.equalsDates(self.mExdates, comp.mExdates):
             return False
-        if not self.equalsPeriods(self.mExperiods, comp.self.mExperiods):
+        if not self.equalsPeriods(self.mExperiods, comp.mExperiods):
             return False
 
         # If we get here they match
@@ -111,7 +111,7 @@ class RecurrenceSet(object):
         dt1.sort(key=lambda x: x.getPosixTime())
         dt2.sort(key=lambda x: x.getPosixTime())
 
-        return dt1.equal(dt2)
+        return dt1 == dt2
 
     def equalsPeriods(self, periods1, periods2):
         # Check sizes first
@@ -127,7 +127,7 @@ class RecurrenceSet(object):
         p1.sort()
         p2.sort()
 
-        return p1.equal(p2)
+        return p1 == p2
 
     def addRule(self, rule):
         self.mRrules.append(rule)
-- 
2.43.0


From 92a2d9c4b37d007d5c13eac364e30eeee3dd8dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:21 +0000
Subject: [PATCH 08/47] fix: equal recurrence rules have equal hashes whatever
 the order of their BY parts

---
 src/pycalendar/icalendar/recurrence.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 4e07f48..6975852 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -177,15 +177,15 @@ class Recurrence(ValueMixin):
             self.mUseUntil,
             self.mUntil,
             self.mInterval,
-            tuple(self.mBySeconds) if self.mBySeconds else None,
-            tuple(self.mByMinutes) if self.mByMinutes else None,
-            tuple(self.mByHours) if self.mByHours else None,
-            tuple(self.mByDay) if self.mByDay else None,
-            tuple(self.mByMonthDay) if self.mByMonthDay else None,
-            tuple(self.mByYearDay) if self.mByYearDay else None,
-            tuple(self.mByWeekNo) if self.mByWeekNo else None,
-            tuple(self.mByMonth) if self.mByMonth else None,
-            tuple(self.mBySetPos) if self.mBySetPos else None,
+            tuple(sorted(self.mBySeconds)) if self.mBySeconds else None,
+            tuple(sorted(self.mByMinutes)) if self.mByMinutes else None,
+            tuple(sorted(self.mByHours)) if self.mByHours else None,
+            tuple(sorted(self.mByDay)) if self.mByDay else None,
+            tuple(sorted(self.mByMonthDay)) if self.mByMonthDay else None,
+            tuple(sorted(self.mByYearDay)) if self.mByYearDay else None,
+            tuple(sorted(self.mByWeekNo)) if self.mByWeekNo else None,
+            tuple(sorted(self.mByMonth)) if self.mByMonth else None,
+            tuple(sorted(self.mBySetPos)) if self.mBySetPos else None,
             self.mWeekstart,
         ))
 
-- 
2.43.0


From ec29c9b604f4595ece0d15f90fd8f6d80c609642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:21 +0000
Subject: [PATCH 09/47] fix: vCard properties with different groups are not
 equal

---
 src/pycalendar/vcard/property.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 52b7471..7177e1e 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -197,7 +197,7 @@ class Property(PropertyBase):
         if not isinstance(other, Property):
             return False
         return (
-            self.mGroup == self.mGroup and
+            self.mGroup == other.mGroup and
             self.mName == other.mName and
             self.mValue == other.mValue and
             self.mParameters == other.mParameters
-- 
2.43.0


From 62356c6621635708a788bdfe6260d0ad83bcb513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:21 +0000
Subject: [PATCH 10/47] fix: durations, periods, addresses and names define
 inequality, and are unequal to other things; periods can be ordered with >

---
 src/pycalendar/duration.py  | 5 +++++
 src/pycalendar/period.py    | 8 +++++++-
 src/pycalendar/vcard/adr.py | 5 +++++
 src/pycalendar/vcard/n.py   | 5 +++++
 4 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/duration.py b/src/pycalendar/duration.py
index 36f4aed..98d1523 100644
--- a/src/pycalendar/duration.py
+++ b/src/pycalendar/duration.py
@@ -51,7 +51,12 @@ class Duration(ValueMixin):
     def __hash__(self):
         return hash(self.getTotalSeconds())
 
+    def __ne__(self, comp):
+        return not self.__eq__(comp)
+
     def __eq__(self, comp):
+        if not isinstance(comp, Duration):
+            return False
         return self.getTotalSeconds() == comp.getTotalSeconds()
 
     def __gt__(self, comp):
diff --git a/src/pycalendar/period.py b/src/pycalendar/period.py
index 8e47e4c..6440e11 100644
--- a/src/pycalendar/period.py
+++ b/src/pycalendar/period.py
@@ -56,11 +56,17 @@ class Period(ValueMixin):
     def __str__(self):
         return self.getText()
 
+    def __ne__(self, comp):
+        return not self.__eq__(comp)
+
     def __eq__(self, comp):
+        if not isinstance(comp, Period):
+            return False
         return self.mStart == comp.mStart and self.getEnd() == comp.getEnd()
 
     def __gt__(self, comp):
-        return self.mStart > comp
+        return self.mStart > comp.mStart  \
+            or (self.mStart == comp.mStart) and self.getEnd() > comp.getEnd()
 
     def __lt__(self, comp):
         return self.mStart < comp.mStart  \
diff --git a/src/pycalendar/vcard/adr.py b/src/pycalendar/vcard/adr.py
index 07cf79d..f4aac91 100644
--- a/src/pycalendar/vcard/adr.py
+++ b/src/pycalendar/vcard/adr.py
@@ -48,7 +48,12 @@ class Adr(ValueMixin):
     def __repr__(self):
         return "ADR %s" % (self.getText(),)
 
+    def __ne__(self, comp):
+        return not self.__eq__(comp)
+
     def __eq__(self, comp):
+        if not isinstance(comp, Adr):
+            return False
         return self.mValue == comp.mValue
 
     def getPobox(self):
diff --git a/src/pycalendar/vcard/n.py b/src/pycalendar/vcard/n.py
index cda6409..6ecb648 100644
--- a/src/pycalendar/vcard/n.py
+++ b/src/pycalendar/vcard/n.py
@@ -46,7 +46,12 @@ class N(ValueMixin):
     def __repr__(self):
         return "N %s" % (self.getText(),)
 
+    def __ne__(self, comp):
+        return not self.__eq__(comp)
+
     def __eq__(self, comp):
+        if not isinstance(comp, N):
+            return False
         return self.mValue == comp.mValue
 
     def getFirst(self):
-- 
2.43.0


From e2a56138e68a643642f12114f453ecaa3bd8b779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:12 +0000
Subject: [PATCH 11/47] fix: filtered writing of sub-components uses the sorted
 components and the same format's component writer

---
 src/pycalendar/componentbase.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index 6adc521..f70f159 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -407,7 +407,7 @@ class ComponentBase(object):
         if filter.isAllSubComponents():
             self.writeComponents(os)
         elif filter.hasSubComponentFilters():
-            for subcomp in self.sortedcomponents():
+            for subcomp in self.sortedComponents():
                 subfilter = filter.getSubComponentFilter(subcomp.getType())
                 if subfilter is not None:
                     subcomp.generateFiltered(os, subfilter)
@@ -423,14 +423,14 @@ class ComponentBase(object):
 
     def writeComponentsFilteredXML(self, node, namespace, filter):
 
-        if self.mComponents:
+        # Shortcut for all sub-components
+        if filter.isAllSubComponents():
+            self.writeComponentsXML(node, namespace)
+        elif self.mComponents:
             comps = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.components))
 
-            # Shortcut for all sub-components
-            if filter.isAllSubComponents():
-                self.writeXML(comps, namespace)
-            elif filter.hasSubComponentFilters():
-                for subcomp in self.sortedcomponents():
+            if filter.hasSubComponentFilters():
+                for subcomp in self.sortedComponents():
                     subfilter = filter.getSubComponentFilter(subcomp.getType())
                     if subfilter is not None:
                         subcomp.writeXMLFiltered(comps, namespace, subfilter)
@@ -447,9 +447,9 @@ class ComponentBase(object):
         if self.mComponents:
             # Shortcut for all sub-components
             if filter.isAllSubComponents():
-                self.writeJSON(jobject)
+                self.writeComponentsJSON(jobject)
             elif filter.hasSubComponentFilters():
-                for subcomp in self.sortedcomponents():
+                for subcomp in self.sortedComponents():
                     subfilter = filter.getSubComponentFilter(subcomp.getType())
                     if subfilter is not None:
                         subcomp.writeJSONFiltered(jobject, subfilter)
-- 
2.43.0


From 78c7856c4921071a835552c564c82d1b3906264d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:54 +0000
Subject: [PATCH 12/47] fix: editing a calendar name, a recurrence set or its
 excluded instances no longer fails

---
 src/pycalendar/icalendar/calendar.py       |  2 +-
 src/pycalendar/icalendar/componentrecur.py |  6 +++---
 src/pycalendar/icalendar/recurrence.py     |  3 +--
 src/pycalendar/icalendar/recurrenceset.py  | 12 +++++-------
 4 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 2f243ef..cf49655 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -107,7 +107,7 @@ class Calendar(ContainerBase):
 
             # Now create properties
             if len(name):
-                self.ddProperty(Property(definitions.cICalProperty_XWRCALNAME, name))
+                self.addProperty(Property(definitions.cICalProperty_XWRCALNAME, name))
 
     def getDescription(self):
         return self.mDescription
diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index ad3c535..a481fa9 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -447,7 +447,7 @@ class ComponentRecur(Component):
 
                             # Find most appropriate THISANDFUTURE item
                             for i in range(len(future) - 1, 0, -1):
-                                riter2 = future.elementAt(i)
+                                riter2 = future[i]
                                 if riter2.getStart() < iter1:
                                     slave = riter2
                                     break
@@ -597,7 +597,7 @@ class ComponentRecur(Component):
         for iter in self.mRecurrences.getRules():
             prop = Property(definitions.cICalProperty_RRULE, iter)
             self.addProperty(prop)
-        for iter in self.getExrules():
+        for iter in self.mRecurrences.getExrules():
             prop = Property(definitions.cICalProperty_EXRULE, iter)
             self.addProperty(prop)
         for iter in self.mRecurrences.getDates():
@@ -613,7 +613,7 @@ class ComponentRecur(Component):
             return
 
         # Add to recurrence set and clear cache
-        self.mRecurrences.subtract(start)
+        self.mRecurrences.subtractDT(start)
 
         # Add property
         prop = Property(definitions.cICalProperty_EXDATE, start)
diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 6975852..d7bc066 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1024,8 +1024,7 @@ class Recurrence(ValueMixin):
     def excludeFutureRecurrence(self, exclude):
         # Expand the rule up to the exclude date
         items = []
-        period = Period()
-        period.init(self.mCacheStart, exclude)
+        period = Period(self.mCacheStart, exclude)
         self.expand(self.mCacheStart, period, items)
 
         # Adjust UNTIL or add one if no COUNT
diff --git a/src/pycalendar/icalendar/recurrenceset.py b/src/pycalendar/icalendar/recurrenceset.py
index b409ba1..aac4ee7 100644
--- a/src/pycalendar/icalendar/recurrenceset.py
+++ b/src/pycalendar/icalendar/recurrenceset.py
@@ -242,10 +242,8 @@ class RecurrenceSet(object):
             iter.excludeFutureRecurrence(exclude)
 
         # Remove RDATES on or after start
-        self.mRdates.removeOnOrAfter(exclude)
-        for iter in self.mRperiods:
-            if iter > exclude:
-                self.mRperiods.remove(iter)
+        self.mRdates = [dt for dt in self.mRdates if dt < exclude]
+        self.mRperiods = [period for period in self.mRperiods if period.getStart() < exclude]
 
     # UI operations
     def isSimpleUI(self):
@@ -258,7 +256,7 @@ class RecurrenceSet(object):
 
         # Also, check the rule iteself
         elif len(self.mRrules) == 1:
-            return self.mRrules.firstElement().isSimpleRule()
+            return self.mRrules[0].isSimpleRule()
         else:
             return True
 
@@ -270,7 +268,7 @@ class RecurrenceSet(object):
 
         # Also, check the rule iteself
         elif len(self.mRrules) == 1:
-            return self.mRrules.firstElement().isAdvancedRule()
+            return self.mRrules[0].isAdvancedRule()
         else:
             return True
 
@@ -289,7 +287,7 @@ class RecurrenceSet(object):
         if ((len(self.mRrules) == 1) and (len(self.mExrules) == 0) and (len(self.mRdates) == 0) and
                 (len(self.mExdates) == 0) and (len(self.mRperiods) == 0) and
                 (len(self.mExperiods) == 0)):
-            return self.mRrules.firstElement().getUIDescription()
+            return self.mRrules[0].getUIDescription()
 
         # Indicate some form of complex recurrence
         return "Multiple recurrence rules, dates or exclusions"
-- 
2.43.0


From 6d0cabb5bfbae5a6b4838e55cd9f0325060a1a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:33 +0000
Subject: [PATCH 13/47] fix: date comparators used as sort functions return -1,
 0 or 1 and use existing fields

---
 src/pycalendar/icalendar/componentexpanded.py | 18 +++++-----
 src/pycalendar/icalendar/componentrecur.py    | 34 +++++++++----------
 src/pycalendar/icalendar/vtodo.py             | 26 +++++++-------
 3 files changed, 39 insertions(+), 39 deletions(-)

diff --git a/src/pycalendar/icalendar/componentexpanded.py b/src/pycalendar/icalendar/componentexpanded.py
index 63bf1cb..d53789d 100644
--- a/src/pycalendar/icalendar/componentexpanded.py
+++ b/src/pycalendar/icalendar/componentexpanded.py
@@ -23,20 +23,20 @@ class ComponentExpanded(object):
     def sort_by_dtstart_allday(e1, e2):
 
         if e1.mInstanceStart.isDateOnly() and e2.mInstanceStart.isDateOnly():
-            return e1.mInstanceStart < e2.mInstanceStart
+            return cmp(e1.mInstanceStart, e2.mInstanceStart)
         elif e1.mInstanceStart.isDateOnly():
-            return True
+            return -1
         elif e2.mInstanceStart.isDateOnly():
-            return False
+            return 1
         elif e1.mInstanceStart == e2.mInstanceStart:
             if e1.mInstanceEnd == e2.mInstanceEnd:
                 # Put ones created earlier in earlier columns in day view
-                return e1.getOwner().getStamp() < e2.getOwner().getStamp()
+                return cmp(e1.getOwner().getStamp(), e2.getOwner().getStamp())
             else:
                 # Put ones that end later in earlier columns in day view
-                return e1.mInstanceEnd > e2.mInstanceEnd
+                return cmp(e2.mInstanceEnd, e1.mInstanceEnd)
         else:
-            return e1.mInstanceStart < e2.mInstanceStart
+            return cmp(e1.mInstanceStart, e2.mInstanceStart)
 
     @staticmethod
     def sort_by_dtstart(e1, e2):
@@ -45,11 +45,11 @@ class ComponentExpanded(object):
                 e1.mInstanceStart.isDateOnly() and not e2.mInstanceStart.isDateOnly() or
                 not e1.mInstanceStart.isDateOnly() and e2.mInstanceStart.isDateOnly()
             ):
-                return e1.mInstanceStart.isDateOnly()
+                return -1 if e1.mInstanceStart.isDateOnly() else 1
             else:
-                return False
+                return 0
         else:
-            return e1.mInstanceStart < e2.mInstanceStart
+            return cmp(e1.mInstanceStart, e2.mInstanceStart)
 
     def __init__(self, owner, rid):
 
diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index a481fa9..678984d 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -44,34 +44,34 @@ class ComponentRecur(Component):
     @staticmethod
     def sort_by_dtstart_allday(e1, e2):
 
-        if e1.self.mStart.isDateOnly() and e2.self.mStart.isDateOnly():
-            return e1.self.mStart < e2.self.mStart
-        elif e1.self.mStart.isDateOnly():
-            return True
-        elif (e2.self.mStart.isDateOnly()):
-            return False
-        elif e1.self.mStart == e2.self.mStart:
-            if e1.self.mEnd == e2.self.mEnd:
+        if e1.mStart.isDateOnly() and e2.mStart.isDateOnly():
+            return cmp(e1.mStart, e2.mStart)
+        elif e1.mStart.isDateOnly():
+            return -1
+        elif (e2.mStart.isDateOnly()):
+            return 1
+        elif e1.mStart == e2.mStart:
+            if e1.mEnd == e2.mEnd:
                 # Put ones created earlier in earlier columns in day view
-                return e1.self.mStamp < e2.self.mStamp
+                return cmp(e1.mStamp, e2.mStamp)
             else:
                 # Put ones that end later in earlier columns in day view
-                return e1.self.mEnd > e2.self.mEnd
+                return cmp(e2.mEnd, e1.mEnd)
         else:
-            return e1.self.mStart < e2.self.mStart
+            return cmp(e1.mStart, e2.mStart)
 
     @staticmethod
     def sort_by_dtstart(e1, e2):
-        if e1.self.mStart == e2.self.mStart:
+        if e1.mStart == e2.mStart:
             if (
-                e1.self.mStart.isDateOnly() and e2.self.mStart.isDateOnly() or
-                not e1.self.mStart.isDateOnly() and not e2.self.mStart.isDateOnly()
+                e1.mStart.isDateOnly() and e2.mStart.isDateOnly() or
+                not e1.mStart.isDateOnly() and not e2.mStart.isDateOnly()
             ):
-                return False
+                return 0
             else:
-                return e1.self.mStart.isDateOnly()
+                return -1 if e1.mStart.isDateOnly() else 1
         else:
-            return e1.self.mStart < e2.self.mStart
+            return cmp(e1.mStart, e2.mStart)
 
     def __init__(self, parent=None):
         super(ComponentRecur, self).__init__(parent=parent)
diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index 4377922..178decb 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -38,27 +38,27 @@ class VToDo(ComponentRecur):
         s2 = e2.getMaster()
 
         # Check status first (convert None -> Needs action for tests)
-        status1 = s1.self.mStatus
-        status2 = s2.self.mStatus
+        status1 = s1.mStatus
+        status2 = s2.mStatus
         if status1 == definitions.eStatus_VToDo_None:
             status1 = definitions.eStatus_VToDo_NeedsAction
         if status2 == definitions.eStatus_VToDo_None:
             status2 = definitions.eStatus_VToDo_NeedsAction
         if status1 != status2:
             # More important ones at the top
-            return status1 < status2
+            return cmp(status1, status2)
 
         # At this point the status of each is the same
 
         # If status is cancelled sort by start time
-        if s1.self.mStatus == definitions.eStatus_VToDo_Cancelled:
+        if s1.mStatus == definitions.eStatus_VToDo_Cancelled:
             # Older ones at the bottom
-            return s1.mStart > s2.mStart
+            return cmp(s2.mStart, s1.mStart)
 
         # If status is completed sort by completion time
-        if s1.self.mStatus == definitions.eStatus_VToDo_Completed:
+        if s1.mStatus == definitions.eStatus_VToDo_Completed:
             # Older ones at the bottom
-            return s1.self.mCompleted > s2.self.mCompleted
+            return cmp(s2.mCompleted, s1.mCompleted)
 
         # Check due date exists
         if s1.mHasEnd != s2.mHasEnd:
@@ -67,23 +67,23 @@ class VToDo(ComponentRecur):
 
             # Ones with due dates after today below ones without due dates
             if s1.hasEnd():
-                return s1.mEnd <= now
+                return -1 if s1.mEnd <= now else 1
             elif s2.hasEnd():
-                return now < s2.mEnd
+                return -1 if now < s2.mEnd else 1
 
         # Check due dates if present
         if s1.mHasEnd:
             if s1.mEnd != s2.mEnd:
                 # Soonest dues dates above later ones
-                return s1.mEnd < s2.mEnd
+                return cmp(s1.mEnd, s2.mEnd)
 
         # Check priority next
-        if s1.self.mPriority != s2.self.mPriority:
+        if s1.mPriority != s2.mPriority:
             # Higher priority above lower ones
-            return s1.self.mPriority < s2.self.mPriority
+            return cmp(s1.mPriority, s2.mPriority)
 
         # Just use start time - older ones at the top
-        return s1.mStart < s2.mStart
+        return cmp(s1.mStart, s2.mStart)
 
     propertyCardinality_1 = (
         definitions.cICalProperty_DTSTAMP,
-- 
2.43.0


From 7e27137ba3c4ae9c58e14c2aecf5be8f5b8395aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:07 +0000
Subject: [PATCH 14/47] fix: description texts, zone ordering and digests call
 functions that exist

---
 src/pycalendar/icalendar/recurrence.py |  2 +-
 src/pycalendar/icalendar/vtimezone.py  |  2 +-
 src/pycalendar/icalendar/vtodo.py      | 14 +++++++-------
 src/pycalendar/stringutils.py          |  2 +-
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index d7bc066..b94d8d1 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -827,7 +827,7 @@ class Recurrence(ValueMixin):
     def getUIDescription(self):
         try:
             # For now just use iCal item
-            sout = StringIO()
+            sout = StringIO.StringIO()
             self.generate(sout)
             result = sout.getvalue()
         except:
diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index ab7aceb..1390199 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -283,7 +283,7 @@ class VTimezone(Component):
         sort1 = tz1.getUTCOffsetSortKey()
         sort2 = tz2.getUTCOffsetSortKey()
         if sort1 == sort2:
-            return tz1.getID().compareToIgnoreCase(tz2.getID())
+            return cmp(tz1.getID().lower(), tz2.getID().lower())
         else:
             return (1, -1)[sort1 < sort2]
 
diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index 178decb..48efdde 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -151,7 +151,7 @@ class VToDo(ComponentRecur):
         self.mStatus = status
 
     def getStatusText(self):
-        sout = StringIO()
+        sout = StringIO.StringIO()
 
         if self.mStatus in (definitions.eStatus_VToDo_NeedsAction, definitions.eStatus_VToDo_InProcess):
             if self.hasEnd():
@@ -159,10 +159,10 @@ class VToDo(ComponentRecur):
                 today = DateTime()
                 today.setToday()
                 if self.getEnd() > today:
-                    sout.append("Due: ")
+                    sout.write("Due: ")
                     whendue = self.getEnd() - today
                     if (whendue.getDays() > 0) and (whendue.getDays() <= 7):
-                        sout.write(whendue.getDays())
+                        sout.write(str(whendue.getDays()))
                         sout.write(" days")
                     else:
                         sout.write(self.getEnd().getLocaleDate(DateTime.NUMERICDATE))
@@ -172,10 +172,10 @@ class VToDo(ComponentRecur):
                     sout.write("Overdue: ")
                     overdue = today - self.getEnd()
                     if overdue.getWeeks() != 0:
-                        sout.write(overdue.getWeeks())
+                        sout.write(str(overdue.getWeeks()))
                         sout.write(" weeks")
                     else:
-                        sout.write(overdue.getDays() + 1)
+                        sout.write(str(overdue.getDays() + 1))
                         sout.write(" days")
             else:
                 sout.write("Not Completed")
@@ -185,10 +185,10 @@ class VToDo(ComponentRecur):
                 sout.write(self.getCompleted().getLocaleDate(DateTime.NUMERICDATE))
             else:
                 sout.write("Completed")
-        elif definitions.eStatus_VToDo_Cancelled:
+        elif self.mStatus == definitions.eStatus_VToDo_Cancelled:
             sout.write("Cancelled")
 
-        return sout.toString()
+        return sout.getvalue()
 
     def getCompletionState(self):
         if self.mStatus in (definitions.eStatus_VToDo_NeedsAction, definitions.eStatus_VToDo_InProcess):
diff --git a/src/pycalendar/stringutils.py b/src/pycalendar/stringutils.py
index a1c8933..e0baa32 100644
--- a/src/pycalendar/stringutils.py
+++ b/src/pycalendar/stringutils.py
@@ -99,4 +99,4 @@ def compareStringsSafe(s1, s2):
 
 
 def md5digest(txt):
-    return md5.new(txt).hexdigest()
+    return md5(txt).hexdigest()
-- 
2.43.0


From 1ac61bca217964a0b2d79a8318806531e07a06ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:32 +0000
Subject: [PATCH 15/47] fix: setting a date-time to now or today, triggering an
 alarm and creating list-valued vCard properties no longer fail

---
 src/pycalendar/datetime.py         | 24 +++++++++++++++++++++---
 src/pycalendar/icalendar/valarm.py | 12 ++++--------
 src/pycalendar/vcard/property.py   | 19 +++++++++++++++++++
 3 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 7a93108..a74fa9b 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -107,6 +107,24 @@ class DateTime(ValueMixin):
 
         return other
 
+    def copy(self, other):
+        # Take on the value of another date-time
+        self.mYear = other.mYear
+        self.mMonth = other.mMonth
+        self.mDay = other.mDay
+        self.mHours = other.mHours
+        self.mMinutes = other.mMinutes
+        self.mSeconds = other.mSeconds
+
+        self.mDateOnly = other.mDateOnly
+
+        self.mTZUTC = other.mTZUTC
+        self.mTZID = other.mTZID
+        self.mTZOffset = other.mTZOffset
+
+        self.mPosixTimeCached = other.mPosixTimeCached
+        self.mPosixTime = other.mPosixTime
+
     def duplicateAsUTC(self):
         other = self.duplicate()
         other.adjustToUTC()
@@ -661,7 +679,7 @@ class DateTime(ValueMixin):
 
     def setToday(self):
         tz = Timezone(utc=self.mTZUTC, tzid=self.mTZID)
-        self.copy_ICalendarDateTime(self.getToday(tz))
+        self.copy(self.getToday(tz))
 
     @staticmethod
     def getToday(tzid=None):
@@ -674,7 +692,7 @@ class DateTime(ValueMixin):
 
     def setNow(self):
         tz = Timezone(utc=self.mTZUTC, tzid=self.mTZID)
-        self.copy_ICalendarDateTime(self.getNow(tz))
+        self.copy(self.getNow(tz))
 
     @staticmethod
     def getNow(tzid):
@@ -683,7 +701,7 @@ class DateTime(ValueMixin):
         return utc
 
     def setNowUTC(self):
-        self.copy_DateTime(self.getNowUTC())
+        self.copy(self.getNowUTC())
 
     @staticmethod
     def getNowUTC():
diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index c4cca4c..8e40c7d 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -389,16 +389,12 @@ class VAlarm(Component):
     def added(self):
         # Added to calendar so add to calendar notifier
         # calstore::CCalendarNotifier::sCalendarNotifier.AddAlarm(this)
-
-        # Do inherited
-        super(VAlarm, self).added()
+        pass
 
     def removed(self):
         # Removed from calendar so add to calendar notifier
         # calstore::CCalendarNotifier::sCalendarNotifier.RemoveAlarm(this)
-
-        # Do inherited
-        super(VAlarm, self).removed()
+        pass
 
     def changed(self):
         # Always force recalc of trigger status
@@ -608,7 +604,7 @@ class VAlarm(Component):
             self.mAlarmStatus = definitions.eAlarm_Status_Completed
 
         # Add new
-        self.addProperty(Property(definitions.cICalProperty_ALARM_X_LASTTRIGGER, dt))
+        self.addProperty(Property(definitions.cICalProperty_ALARM_X_LASTTRIGGER, self.mLastTrigger))
         status = ""
         if self.mAlarmStatus == definitions.eAlarm_Status_Pending:
             status = definitions.cICalProperty_ALARM_X_ALARMSTATUS_PENDING
@@ -669,7 +665,7 @@ class VAlarm(Component):
             dt.copy(self.getTriggerOn())
         else:
             # Get the parent embedder class (must be CICalendarComponentRecur type)
-            owner = self.getEmbedder()
+            owner = self.getParentComponent()
             if owner is not None:
                 # Determine time at which alarm will trigger
                 trigger = (owner.getStart(), owner.getEnd())[not self.isTriggerOnStart()]
diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 7177e1e..48c09d6 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -18,8 +18,11 @@ from pycalendar import stringutils
 from pycalendar.parameter import Parameter
 from pycalendar.datetime import DateTime
 from pycalendar.exceptions import InvalidProperty
+from pycalendar.geovalue import GeoValue
+from pycalendar.multivalue import MultiValue
 from pycalendar.parser import ParserContext
 from pycalendar.property import PropertyBase
+from pycalendar.textvalue import TextValue
 from pycalendar.utcoffsetvalue import UTCOffsetValue
 from pycalendar.utils import decodeParameterValue
 from pycalendar.value import Value
@@ -318,6 +321,22 @@ class Property(PropertyBase):
         # Parameters
         self.setupValueParameter()
 
+    def _init_attr_value_geo(self, geo):
+        # Value
+        self.mValue = GeoValue(geo)
+
+        # Parameters
+        self.setupValueParameter()
+
+    def _init_attr_value_text_list(self, txts):
+        # Value
+        self.mValue = MultiValue(Value.VALUETYPE_TEXT)
+        for txt in txts:
+            self.mValue.addValue(TextValue(txt))
+
+        # Parameters
+        self.setupValueParameter()
+
     def _init_attr_value_org(self, reqstatus):
         # Value
         self.mValue = OrgValue(reqstatus)
-- 
2.43.0


From a6457f95ccf64a3b885a04c196038289348fe003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:15 +0000
Subject: [PATCH 16/47] fix: durations and periods can be written as XML

---
 src/pycalendar/valueutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/valueutils.py b/src/pycalendar/valueutils.py
index 6dc8694..99a2c31 100644
--- a/src/pycalendar/valueutils.py
+++ b/src/pycalendar/valueutils.py
@@ -79,7 +79,7 @@ class WrapperValue(object):
 
     def writeXML(self, node, namespace):
         value = self.getXMLNode(node, namespace)
-        value.text = self.mValue.writeXML()
+        self.mValue.writeXML(value, namespace)
 
     def parseJSONValue(self, jobject):
         self.mValue.parseJSON(jobject)
-- 
2.43.0


From d02505522572eff324c9d9552c112c2cf5f9900f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:25 +0000
Subject: [PATCH 17/47] fix: components of vCard names and addresses can be set

---
 src/pycalendar/vcard/adr.py | 17 ++++++++++-------
 src/pycalendar/vcard/n.py   | 13 ++++++++-----
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/pycalendar/vcard/adr.py b/src/pycalendar/vcard/adr.py
index f4aac91..8f64850 100644
--- a/src/pycalendar/vcard/adr.py
+++ b/src/pycalendar/vcard/adr.py
@@ -60,43 +60,46 @@ class Adr(ValueMixin):
         return self.mValue[Adr.POBOX]
 
     def setPobox(self, value):
-        self.mValue[Adr.POBOX] = value
+        self._setItem(Adr.POBOX, value)
 
     def getExtended(self):
         return self.mValue[Adr.EXTENDED]
 
     def setExtended(self, value):
-        self.mValue[Adr.EXTENDED] = value
+        self._setItem(Adr.EXTENDED, value)
 
     def getStreet(self):
         return self.mValue[Adr.STREET]
 
     def setStreet(self, value):
-        self.mValue[Adr.STREET] = value
+        self._setItem(Adr.STREET, value)
 
     def getLocality(self):
         return self.mValue[Adr.LOCALITY]
 
     def setLocality(self, value):
-        self.mValue[Adr.LOCALITY] = value
+        self._setItem(Adr.LOCALITY, value)
 
     def getRegion(self):
         return self.mValue[Adr.REGION]
 
     def setRegion(self, value):
-        self.mValue[Adr.REGION] = value
+        self._setItem(Adr.REGION, value)
 
     def getPostalCode(self):
         return self.mValue[Adr.POSTALCODE]
 
     def setPostalCode(self, value):
-        self.mValue[Adr.POSTALCODE] = value
+        self._setItem(Adr.POSTALCODE, value)
 
     def getCountry(self):
         return self.mValue[Adr.COUNTRY]
 
     def setCountry(self, value):
-        self.mValue[Adr.COUNTRY] = value
+        self._setItem(Adr.COUNTRY, value)
+
+    def _setItem(self, index, value):
+        self.mValue = self.mValue[:index] + (value,) + self.mValue[index + 1:]
 
     def parse(self, data):
         self.mValue = utils.parseDoubleNestedList(data, Adr.MAXITEMS)
diff --git a/src/pycalendar/vcard/n.py b/src/pycalendar/vcard/n.py
index 6ecb648..12b946f 100644
--- a/src/pycalendar/vcard/n.py
+++ b/src/pycalendar/vcard/n.py
@@ -58,31 +58,31 @@ class N(ValueMixin):
         return self.mValue[N.FIRST]
 
     def setFirst(self, value):
-        self.mValue[N.FIRST] = value
+        self._setItem(N.FIRST, value)
 
     def getLast(self):
         return self.mValue[N.LAST]
 
     def setLast(self, value):
-        self.mValue[N.LAST] = value
+        self._setItem(N.LAST, value)
 
     def getMiddle(self):
         return self.mValue[N.MIDDLE]
 
     def setMiddle(self, value):
-        self.mValue[N.MIDDLE] = value
+        self._setItem(N.MIDDLE, value)
 
     def getPrefix(self):
         return self.mValue[N.PREFIX]
 
     def setPrefix(self, value):
-        self.mValue[N.PREFIX] = value
+        self._setItem(N.PREFIX, value)
 
     def getSuffix(self):
         return self.mValue[N.SUFFIX]
 
     def setSuffix(self, value):
-        self.mValue[N.SUFFIX] = value
+        self._setItem(N.SUFFIX, value)
 
     def getFullName(self):
 
@@ -97,6 +97,9 @@ class N(ValueMixin):
 
         return " ".join(results)
 
+    def _setItem(self, index, value):
+        self.mValue = self.mValue[:index] + (value,) + self.mValue[index + 1:]
+
     def parse(self, data):
         self.mValue = utils.parseDoubleNestedList(data, N.MAXITEMS)
 
-- 
2.43.0


From f993fda0f141e7831a1bb91eb10fedd86e0b311c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:33 +0000
Subject: [PATCH 18/47] fix: geographic positions, request statuses and offsets
 with seconds can be written as XML

---
 src/pycalendar/geovalue.py                     | 4 ++--
 src/pycalendar/icalendar/requeststatusvalue.py | 2 +-
 src/pycalendar/utcoffsetvalue.py               | 3 +--
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/geovalue.py b/src/pycalendar/geovalue.py
index 5800fe5..e33a0da 100644
--- a/src/pycalendar/geovalue.py
+++ b/src/pycalendar/geovalue.py
@@ -65,10 +65,10 @@ class GeoValue(Value):
         value = self.getXMLNode(node, namespace)
 
         latitude = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.geo_latitude))
-        latitude.text = self.mValue[0]
+        latitude.text = str(self.mValue[0])
 
         longitude = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.geo_longitude))
-        longitude.text = self.mValue[1]
+        longitude.text = str(self.mValue[1])
 
     def parseJSONValue(self, jobject):
         self.mValue = jobject
diff --git a/src/pycalendar/icalendar/requeststatusvalue.py b/src/pycalendar/icalendar/requeststatusvalue.py
index 20abc8a..fdd8e5f 100644
--- a/src/pycalendar/icalendar/requeststatusvalue.py
+++ b/src/pycalendar/icalendar/requeststatusvalue.py
@@ -105,4 +105,4 @@ class RequestStatusValue(Value):
     def setValue(self, value):
         self.mValue = value
 
-Value.registerType(Value.VALUETYPE_REQUEST_STATUS, RequestStatusValue, None, xmldefinitions_top.value_text)
+Value.registerType(Value.VALUETYPE_REQUEST_STATUS, RequestStatusValue, xmldefinitions.req_status, xmldefinitions_top.value_text)
diff --git a/src/pycalendar/utcoffsetvalue.py b/src/pycalendar/utcoffsetvalue.py
index 76b58b6..337aa50 100644
--- a/src/pycalendar/utcoffsetvalue.py
+++ b/src/pycalendar/utcoffsetvalue.py
@@ -89,9 +89,8 @@ class UTCOffsetValue(Value):
     def writeXML(self, node, namespace):
 
         os = StringIO()
-        self.generate(os)
+        self.generate(os, fullISO=True)
         text = os.getvalue()
-        text = text[:-2] + ":" + text[-2:]
 
         value = self.getXMLNode(node, namespace)
         value.text = text
-- 
2.43.0


From 208944dd67d39239288f04afc496510fa05da707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:04 +0000
Subject: [PATCH 19/47] fix: vCard names, addresses and organizations can be
 written as XML and read back from JSON

---
 src/pycalendar/vcard/adr.py            |  9 +++++++++
 src/pycalendar/vcard/adrvalue.py       |  6 +++++-
 src/pycalendar/vcard/n.py              |  9 +++++++++
 src/pycalendar/vcard/nvalue.py         |  6 +++++-
 src/pycalendar/vcard/orgvalue.py       | 10 ++++++++--
 src/pycalendar/vcard/xmldefinitions.py |  4 ++++
 6 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/vcard/adr.py b/src/pycalendar/vcard/adr.py
index 8f64850..3230316 100644
--- a/src/pycalendar/vcard/adr.py
+++ b/src/pycalendar/vcard/adr.py
@@ -17,7 +17,10 @@
 # vCard ADR value
 
 from pycalendar import utils
+from pycalendar import xmlutils
 from pycalendar.valueutils import ValueMixin
+from pycalendar.vcard import xmldefinitions
+import xml.etree.cElementTree as XML
 
 
 class Adr(ValueMixin):
@@ -107,6 +110,12 @@ class Adr(ValueMixin):
     def generate(self, os):
         utils.generateDoubleNestedList(os, self.mValue)
 
+    def writeXML(self, node, namespace):
+        for name, item in zip(xmldefinitions.adr_items, self.mValue):
+            for text in ((item,) if isinstance(item, basestring) else item):
+                child = XML.SubElement(node, xmlutils.makeTag(namespace, name))
+                child.text = text
+
     def parseJSON(self, jobject):
         self.mValue = tuple(map(lambda x: x.encode("utf-8"), jobject))
 
diff --git a/src/pycalendar/vcard/adrvalue.py b/src/pycalendar/vcard/adrvalue.py
index 8a1f01a..a480217 100644
--- a/src/pycalendar/vcard/adrvalue.py
+++ b/src/pycalendar/vcard/adrvalue.py
@@ -16,6 +16,7 @@
 
 # vCard ADR value
 
+from pycalendar import xmldefinitions
 from pycalendar.value import Value
 from pycalendar.valueutils import WrapperValue
 from pycalendar.vcard.adr import Adr
@@ -26,4 +27,7 @@ class AdrValue(WrapperValue, Value):
     _wrappedClass = Adr
     _wrappedType = Value.VALUETYPE_ADR
 
-Value.registerType(Value.VALUETYPE_ADR, AdrValue, None)
+    def writeXML(self, node, namespace):
+        self.mValue.writeXML(node, namespace)
+
+Value.registerType(Value.VALUETYPE_ADR, AdrValue, None, xmldefinitions.value_text)
diff --git a/src/pycalendar/vcard/n.py b/src/pycalendar/vcard/n.py
index 12b946f..11debb2 100644
--- a/src/pycalendar/vcard/n.py
+++ b/src/pycalendar/vcard/n.py
@@ -17,7 +17,10 @@
 # vCard ADR value
 
 from pycalendar import utils
+from pycalendar import xmlutils
 from pycalendar.valueutils import ValueMixin
+from pycalendar.vcard import xmldefinitions
+import xml.etree.cElementTree as XML
 
 
 class N(ValueMixin):
@@ -106,6 +109,12 @@ class N(ValueMixin):
     def generate(self, os):
         utils.generateDoubleNestedList(os, self.mValue)
 
+    def writeXML(self, node, namespace):
+        for name, item in zip(xmldefinitions.n_items, self.mValue):
+            for text in ((item,) if isinstance(item, basestring) else item):
+                child = XML.SubElement(node, xmlutils.makeTag(namespace, name))
+                child.text = text
+
     def parseJSON(self, jobject):
         self.mValue = tuple(map(lambda x: x.encode("utf-8"), jobject))
 
diff --git a/src/pycalendar/vcard/nvalue.py b/src/pycalendar/vcard/nvalue.py
index e5e9c00..f2916bf 100644
--- a/src/pycalendar/vcard/nvalue.py
+++ b/src/pycalendar/vcard/nvalue.py
@@ -16,6 +16,7 @@
 
 # vCard N value
 
+from pycalendar import xmldefinitions
 from pycalendar.value import Value
 from pycalendar.valueutils import WrapperValue
 from pycalendar.vcard.n import N
@@ -26,4 +27,7 @@ class NValue(WrapperValue, Value):
     _wrappedClass = N
     _wrappedType = Value.VALUETYPE_N
 
-Value.registerType(Value.VALUETYPE_N, NValue, None)
+    def writeXML(self, node, namespace):
+        self.mValue.writeXML(node, namespace)
+
+Value.registerType(Value.VALUETYPE_N, NValue, None, xmldefinitions.value_text)
diff --git a/src/pycalendar/vcard/orgvalue.py b/src/pycalendar/vcard/orgvalue.py
index d72fd5e..a1c3c2f 100644
--- a/src/pycalendar/vcard/orgvalue.py
+++ b/src/pycalendar/vcard/orgvalue.py
@@ -17,6 +17,7 @@
 # vCard ORG value
 
 from pycalendar import utils
+from pycalendar import xmldefinitions
 from pycalendar.value import Value
 
 
@@ -40,11 +41,16 @@ class OrgValue(Value):
     def generate(self, os):
         utils.generateTextList(os, self.mValue, ';')
 
+    def writeXML(self, node, namespace):
+        for text in ((self.mValue,) if isinstance(self.mValue, basestring) else self.mValue):
+            value = self.getXMLNode(node, namespace)
+            value.text = text
+
     def parseJSONValue(self, jobject):
         self.mValue = tuple(map(lambda x: x.encode("utf-8"), jobject))
 
     def writeJSONValue(self, jobject):
-        jobject.append(list(self.mValue))
+        jobject.append([self.mValue] if isinstance(self.mValue, basestring) else list(self.mValue))
 
     def getValue(self):
         return self.mValue
@@ -52,4 +58,4 @@ class OrgValue(Value):
     def setValue(self, value):
         self.mValue = value
 
-Value.registerType(Value.VALUETYPE_ORG, OrgValue, None)
+Value.registerType(Value.VALUETYPE_ORG, OrgValue, xmldefinitions.value_text)
diff --git a/src/pycalendar/vcard/xmldefinitions.py b/src/pycalendar/vcard/xmldefinitions.py
index 6a3ae85..29d3a70 100644
--- a/src/pycalendar/vcard/xmldefinitions.py
+++ b/src/pycalendar/vcard/xmldefinitions.py
@@ -17,3 +17,7 @@
 # vCard XML definitions
 
 vCard40_namespace = "urn:ietf:params:xml:ns:vcard-4.0"
+
+n_items = ("surname", "given", "additional", "prefix", "suffix",)
+
+adr_items = ("pobox", "ext", "street", "locality", "region", "code", "country",)
-- 
2.43.0


From 42c3cd5c5c62f6219f92c567e3c5a63575de0858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:12 +0000
Subject: [PATCH 20/47] fix: vCard offsets are accepted in the form in which
 they are written

---
 src/pycalendar/utcoffsetvalue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/utcoffsetvalue.py b/src/pycalendar/utcoffsetvalue.py
index 337aa50..07a9204 100644
--- a/src/pycalendar/utcoffsetvalue.py
+++ b/src/pycalendar/utcoffsetvalue.py
@@ -34,7 +34,7 @@ class UTCOffsetValue(Value):
 
     def parse(self, data, variant):
 
-        fullISO = (variant == "vcard")
+        fullISO = (variant == "vcard") and ":" in data
 
         # Must be of specific lengths
         datalen = len(data)
-- 
2.43.0


From 5f7b18e7ba1814cf030bf88fb2addba90cf8cee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 21/47] fix: copying a date-time computes its instant and zone
 offset again

---
 src/pycalendar/datetime.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index a74fa9b..a587c18 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -120,10 +120,9 @@ class DateTime(ValueMixin):
 
         self.mTZUTC = other.mTZUTC
         self.mTZID = other.mTZID
-        self.mTZOffset = other.mTZOffset
+        self.mTZOffset = None
 
-        self.mPosixTimeCached = other.mPosixTimeCached
-        self.mPosixTime = other.mPosixTime
+        self.changed()
 
     def duplicateAsUTC(self):
         other = self.duplicate()
-- 
2.43.0


From 5340993f029d41840d0a1ed67ae8c78e34876060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:24 +0000
Subject: [PATCH 22/47] fix: free-busy collection calls functions that exist,
 counts every event and writes merged busy periods

---
 src/pycalendar/componentbase.py       |  6 +--
 src/pycalendar/icalendar/calendar.py  | 54 +++++++++++----------------
 src/pycalendar/icalendar/freebusy.py  |  3 +-
 src/pycalendar/icalendar/vfreebusy.py |  2 +-
 4 files changed, 27 insertions(+), 38 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index f70f159..52ad6e1 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -190,11 +190,11 @@ class ComponentBase(object):
     def getPropertyString(self, prop):
         return self.loadValueString(prop)
 
-    def getProperty(self, prop, value):
-        return self.loadValue(prop, value)
+    def getProperty(self, prop):
+        return self.loadValue(prop)
 
     def finalise(self):
-        raise NotImplemented
+        raise NotImplementedError
 
     def validate(self, doFix=False):
         """
diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index cf49655..a71e8b9 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -512,62 +512,52 @@ class Calendar(ContainerBase):
     def getVFreeBusyList(self, period, list):
         # Look at each VFreeBusy
         for vfreebusy in self.getComponents(definitions.cICalComponent_VFREEBUSY):
-            vfreebusy.expandPeriod(period, list)
+            vfreebusy.expandPeriodComp(period, list)
 
     def getVFreeBusyFB(self, period, fb):
         # First create expanded set
-        # TODO: fix this
-        # list = ExpandedComponents()
+        list = []
         self.getVEvents(period, list)
-        if len(list) == 0:
-            return
 
-        # Get start/end list for each non-all-day expanded components
-        dtstart = []
-        dtend = []
-        for dt in list:
+        # Get start/end for each non-all-day expanded components
+        busy = []
+        for comp in list:
 
             # Ignore if all-day
-            if dt.getInstanceStart().isDateOnly():
+            if comp.getInstanceStart().isDateOnly():
                 continue
 
             # Ignore if transparent to free-busy
-            transp = ""
-            if dt.getOwner().getProperty(definitions.cICalProperty_TRANSP, transp) and (transp == definitions.cICalProperty_TRANSPARENT):
+            if comp.getOwner().getPropertyString(definitions.cICalProperty_TRANSP) == definitions.cICalProperty_TRANSPARENT:
                 continue
 
             # Add start/end to list
-            dtstart.append(dt.getInstanceStart())
-            dtend.append(dt.getInstanceEnd())
+            busy.append((comp.getInstanceStart(), comp.getInstanceEnd(),))
 
-        # No longer need the expanded items
-        list.clear()
+        if len(busy) == 0:
+            return
 
         # Create non-overlapping periods as properties in the freebusy component
-        temp = Period(dtstart.front(), dtend.front())
-        dtstart_iter = dtstart.iter()
-        dtstart_iter.next()
-        dtend_iter = dtend.iter()
-        dtend_iter.next()
-        for _ignore in (None,):
+        start, end = busy[0]
+        for next_start, next_end in busy[1:]:
 
             # Check for non-overlap
-            if dtstart_iter > temp.getEnd():
+            if next_start > end:
 
                 # Current period is complete
-                fb.addProperty(Property(definitions.cICalProperty_FREEBUSY, temp))
+                fb.addProperty(Property(definitions.cICalProperty_FREEBUSY, [Period(start, end)]))
 
                 # Reset period to new range
-                temp = Period(dtstart_iter, dtend_iter)
+                start, end = next_start, next_end
 
             # They overlap - check for extended end
-            if dtend_iter > temp.getEnd():
+            elif next_end > end:
 
                 # Extend the end
-                temp = Period(temp.getStart(), dtend_iter)
+                end = next_end
 
         # Add remaining period as property
-        fb.addProperty(Property(definitions.cICalProperty_FREEBUSY, temp))
+        fb.addProperty(Property(definitions.cICalProperty_FREEBUSY, [Period(start, end)]))
 
     def getFreeBusy(self, period, fb):
         # First create expanded set
@@ -583,8 +573,7 @@ class Calendar(ContainerBase):
                 continue
 
             # Ignore if transparent to free-busy
-            transp = ""
-            if comp.getOwner().getProperty(definitions.cICalProperty_TRANSP, transp) and (transp == definitions.cICalProperty_TRANSPARENT):
+            if comp.getOwner().getPropertyString(definitions.cICalProperty_TRANSP) == definitions.cICalProperty_TRANSPARENT:
                 continue
 
             # Add free busy item to list
@@ -593,20 +582,19 @@ class Calendar(ContainerBase):
                 fb.append(FreeBusy(FreeBusy.BUSY, Period(comp.getInstanceStart(), comp.getInstanceEnd())))
             elif status == definitions.eStatus_VEvent_Tentative:
                 fb.append(FreeBusy(FreeBusy.BUSYTENTATIVE, Period(comp.getInstanceStart(), comp.getInstanceEnd())))
-                break
             elif status == definitions.eStatus_VEvent_Cancelled:
                 # Cancelled => does not contribute to busy time
                 pass
 
         # Now get the VFREEBUSY info
         list2 = []
-        self.getVFreeBusy(period, list2)
+        self.getVFreeBusyList(period, list2)
 
         # Get start/end list for each free-busy
         for comp in list2:
 
             # Expand component and add free busy info to list
-            comp.expandPeriod(period, fb)
+            comp.expandPeriodFB(period, fb)
 
         # Add remaining period as property
         FreeBusy.resolveOverlaps(fb)
diff --git a/src/pycalendar/icalendar/freebusy.py b/src/pycalendar/icalendar/freebusy.py
index 0480cb4..a1aadf1 100644
--- a/src/pycalendar/icalendar/freebusy.py
+++ b/src/pycalendar/icalendar/freebusy.py
@@ -45,6 +45,7 @@ class FreeBusy(object):
     def isPeriodOverlap(self, period):
         return self.mPeriod.isPeriodOverlap(period)
 
-    def resolveOverlaps(self, fb):
+    @staticmethod
+    def resolveOverlaps(fb):
         # TODO:
         pass
diff --git a/src/pycalendar/icalendar/vfreebusy.py b/src/pycalendar/icalendar/vfreebusy.py
index 35ad2b6..f39141e 100644
--- a/src/pycalendar/icalendar/vfreebusy.py
+++ b/src/pycalendar/icalendar/vfreebusy.py
@@ -216,7 +216,7 @@ class VFreeBusy(Component):
         # See if period intersects the busy time span range
         if (self.mBusyTime is not None) and period.isPeriodOverlap(self.mSpanPeriod):
             for fb in self.mBusyTime:
-                list.append(FreeBusy(fb))
+                list.append(fb.duplicate())
 
     def cacheBusyTime(self):
 
-- 
2.43.0


From 8e4486084d138c06fe3292f1416680e81cd59cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 23/47] fix: a recurrence expansion does not share dates with
 its callers, is not remembered after failing and respects the instance limit

---
 src/pycalendar/icalendar/componentrecur.py | 10 +--
 src/pycalendar/icalendar/recurrence.py     | 79 ++++++++++++----------
 src/pycalendar/icalendar/recurrenceset.py  | 35 +++++-----
 3 files changed, 64 insertions(+), 60 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 678984d..9974df6 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -315,10 +315,12 @@ class ComponentRecur(Component):
                             definitions.cICalValue_RECUR_UNTIL,
                         )
                         if doFix:
-                            rrule.getUntil().setDateOnly(self.mStart.isDateOnly())
+                            until = rrule.getUntil()
+                            until.setDateOnly(self.mStart.isDateOnly())
                             if not self.mStart.isDateOnly():
-                                rrule.getUntil().setHHMMSS(dtutc.getHours(), dtutc.getMinutes(), dtutc.getSeconds())
-                                rrule.getUntil().setTimezone(Timezone(utc=True))
+                                until.setHHMMSS(dtutc.getHours(), dtutc.getMinutes(), dtutc.getSeconds())
+                                until.setTimezone(Timezone(utc=True))
+                            rrule.setUntil(until)
                             self.mRecurrences.changed()
                             fixed.append(logProblem)
                         else:
@@ -625,7 +627,7 @@ class ComponentRecur(Component):
             return
 
         # Adjust RRULES to end before start
-        self.mRecurrences.excludeFutureRecurrence(start)
+        self.mRecurrences.excludeFutureRecurrence(self.mStart, start)
 
         # Remove existing RRULE & RDATE
         self.removeProperties(definitions.cICalProperty_RRULE)
diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index b94d8d1..203f5c7 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -134,6 +134,7 @@ class Recurrence(ValueMixin):
         other.mCached = self.mCached
         if self.mCacheStart:
             other.mCacheStart = self.mCacheStart.duplicate()
+        other.mCacheOffset = self.mCacheOffset
         if self.mCacheUpto:
             other.mCacheUpto = self.mCacheUpto.duplicate()
         other.mFullyCached = self.mFullyCached
@@ -165,6 +166,7 @@ class Recurrence(ValueMixin):
 
         self.mCached = False
         self.mCacheStart = None
+        self.mCacheOffset = 0
         self.mCacheUpto = None
         self.mFullyCached = False
         self.mRecurrences = None
@@ -277,10 +279,12 @@ class Recurrence(ValueMixin):
         self._setAndclearIfChanged("mUseUntil", use_until)
 
     def getUntil(self):
-        return self.mUntil
+        return self.mUntil.duplicate() if self.mUntil is not None else None
 
     def setUntil(self, until):
-        self._setAndclearIfChanged("mUntil", until)
+        # Always change it as dates and date-times can be equal
+        self.clear()
+        self.mUntil = until.duplicate() if until is not None else None
 
     def getUseCount(self):
         return self.mUseCount
@@ -301,34 +305,34 @@ class Recurrence(ValueMixin):
         self._setAndclearIfChanged("mInterval", interval)
 
     def getByMonth(self):
-        return self.mByMonth
+        return self.mByMonth[:] if self.mByMonth is not None else None
 
     def setByMonth(self, by):
-        self._setAndclearIfChanged("mByMonth", by[:])
+        self._setAndclearIfChanged("mByMonth", list(by))
 
     def getByMonthDay(self):
-        return self.mByMonthDay
+        return self.mByMonthDay[:] if self.mByMonthDay is not None else None
 
     def setByMonthDay(self, by):
-        self._setAndclearIfChanged("mByMonthDay", by[:])
+        self._setAndclearIfChanged("mByMonthDay", list(by))
 
     def getByYearDay(self):
-        return self.mByYearDay
+        return self.mByYearDay[:] if self.mByYearDay is not None else None
 
     def setByYearDay(self, by):
-        self._setAndclearIfChanged("mByYearDay", by[:])
+        self._setAndclearIfChanged("mByYearDay", list(by))
 
     def getByDay(self):
-        return self.mByDay
+        return self.mByDay[:] if self.mByDay is not None else None
 
     def setByDay(self, by):
-        self._setAndclearIfChanged("mByDay", by[:])
+        self._setAndclearIfChanged("mByDay", list(by))
 
     def getBySetPos(self):
-        return self.mBySetPos
+        return self.mBySetPos[:] if self.mBySetPos is not None else None
 
     def setBySetPos(self, by):
-        self._setAndclearIfChanged("mBySetPos", by[:])
+        self._setAndclearIfChanged("mBySetPos", list(by))
 
     def parse(self, data):
         self.init_Recurrence()
@@ -838,17 +842,14 @@ class Recurrence(ValueMixin):
     def expand(self, start, range, items, float_offset=0, maxInstances=None):
 
         # Have to normalize this to be very sure we are starting with a valid date, as otherwise
-        # we could end up looping forever when doing recurrence.
+        # we could end up looping forever when doing recurrence. Use a copy as the caller's
+        # date must not change (nor change what is cached here later on).
+        start = start.duplicate()
         start.normalise()
 
-        # Must have recurrence list at this point
-        if self.mRecurrences is None:
-            self.mRecurrences = []
-
         # Wipe cache if start is different
-        if self.mCached and (start != self.mCacheStart):
-            self.mCached = False
-            self.mFullyCached = False
+        if self.mCached and (start != self.mCacheStart or float_offset != self.mCacheOffset):
+            self.clear()
 
         # Is the current cache complete or does it extend past the requested
         # range end
@@ -857,24 +858,34 @@ class Recurrence(ValueMixin):
 
             # Always wipe the existing cached items as we always start from the very first instance
             # so we can properly track the count limit
-            self.mRecurrences = []
+            self.clear()
+            recurrences = []
 
             # Simple expansion is one where there is no BYXXX rule part
             if not self.hasBy():
-                self.mFullyCached = self.simpleExpand(start, range, self.mRecurrences, float_offset, maxInstances=maxInstances)
+                fully = self.simpleExpand(start, range, recurrences, float_offset, maxInstances=maxInstances)
             else:
-                self.mFullyCached = self.complexExpand(start, range, self.mRecurrences, float_offset, maxInstances=maxInstances)
+                fully = self.complexExpand(start, range, recurrences, float_offset, maxInstances=maxInstances)
 
-            # Set cache values
+            # Set cache values (only once the expansion has succeeded)
+            self.mRecurrences = recurrences
+            self.mFullyCached = fully
             self.mCached = True
             self.mCacheStart = start
-            self.mCacheUpto = range.getEnd()
+            self.mCacheOffset = float_offset
+            self.mCacheUpto = range.getEnd().duplicate()
+
+        elif maxInstances:
+            # The limit applies to what is up to the end of this range, as it does without the cache
+            count = len([iter for iter in self.mRecurrences if not range.isDateAfterPeriod(iter)])
+            if count > maxInstances:
+                raise TooManyInstancesError("Too many instances")
 
-        # Just return the cached items in the requested range
+        # Just return (copies of) the cached items in the requested range
         limited = not self.mFullyCached
         for iter in self.mRecurrences:
             if range.isDateWithinPeriod(iter):
-                items.append(iter)
+                items.append(iter.duplicate())
             else:
                 limited = True
         return limited
@@ -1014,18 +1025,12 @@ class Recurrence(ValueMixin):
         if self.mRecurrences is not None:
             self.mRecurrences = []
 
-    # IMPORTANT ExcludeFutureRecurrence assumes mCacheStart is setup with the
-    # owning VEVENT's DTSTART
-    # Currently this method is only called when a recurrence is being removed
-    # so
-    # the recurrence data should be cached
-
-    # Exclude dates on or after the chosen one
-    def excludeFutureRecurrence(self, exclude):
+    # Exclude dates on or after the chosen one, given the owning VEVENT's DTSTART
+    def excludeFutureRecurrence(self, start, exclude):
         # Expand the rule up to the exclude date
         items = []
-        period = Period(self.mCacheStart, exclude)
-        self.expand(self.mCacheStart, period, items)
+        period = Period(start, exclude)
+        self.expand(start, period, items)
 
         # Adjust UNTIL or add one if no COUNT
         if self.getUseUntil() or not self.getUseCount():
diff --git a/src/pycalendar/icalendar/recurrenceset.py b/src/pycalendar/icalendar/recurrenceset.py
index aac4ee7..eeefd4e 100644
--- a/src/pycalendar/icalendar/recurrenceset.py
+++ b/src/pycalendar/icalendar/recurrenceset.py
@@ -15,7 +15,6 @@
 ##
 
 from pycalendar.icalendar.exceptions import TooManyInstancesError
-from pycalendar.utils import set_difference
 
 
 class RecurrenceSet(object):
@@ -169,40 +168,40 @@ class RecurrenceSet(object):
         # Need to return whether the limit was applied or not
         limited = False
 
-        # Now create list of items to include
-        include = []
+        # Now create set of (unique) items to include
+        include = set()
 
         # Always include the initial DTSTART if within the range
         if range.isDateWithinPeriod(start):
-            include.append(start)
+            include.add(start)
         else:
             limited = True
 
         # RRULES
         for iter in self.mRrules:
-            if iter.expand(start, range, include, float_offset=float_offset, maxInstances=maxInstances):
+            instances = []
+            if iter.expand(start, range, instances, float_offset=float_offset, maxInstances=maxInstances):
                 limited = True
+            include.update(instances)
+            if maxInstances and len(include) > maxInstances:
+                raise TooManyInstancesError("Too many instances")
 
         # RDATES
         for iter in self.mRdates:
             if range.isDateWithinPeriod(iter):
-                include.append(iter)
+                include.add(iter)
                 if maxInstances and len(include) > maxInstances:
                     raise TooManyInstancesError("Too many instances")
             else:
                 limited = True
         for iter in self.mRperiods:
             if range.isPeriodOverlap(iter):
-                include.append(iter.getStart())
+                include.add(iter.getStart())
                 if maxInstances and len(include) > maxInstances:
                     raise TooManyInstancesError("Too many instances")
             else:
                 limited = True
 
-        # Make sure the list is unique
-        include = [x for x in set(include)]
-        include.sort(key=lambda x: x.getPosixTime())
-
         # Now create list of items to exclude
         exclude = []
 
@@ -218,13 +217,11 @@ class RecurrenceSet(object):
             if range.isPeriodOverlap(iter):
                 exclude.append(iter.getStart())
 
-        # Make sure the list is unique
-        exclude = [x for x in set(exclude)]
-        exclude.sort(key=lambda x: x.getPosixTime())
-
         # Add difference between to the two sets (include - exclude) to the
-        # results
-        items.extend(set_difference(include, exclude))
+        # results, as copies in chronological order
+        results = [x.duplicate() for x in include - set(exclude)]
+        results.sort(key=lambda x: x.getPosixTime())
+        items.extend(results)
         return limited
 
     def changed(self):
@@ -236,10 +233,10 @@ class RecurrenceSet(object):
         for iter in self.mExrules:
             iter.clear()
 
-    def excludeFutureRecurrence(self, exclude):
+    def excludeFutureRecurrence(self, start, exclude):
         # Adjust RRULES to end before start
         for iter in self.mRrules:
-            iter.excludeFutureRecurrence(exclude)
+            iter.excludeFutureRecurrence(start, exclude)
 
         # Remove RDATES on or after start
         self.mRdates = [dt for dt in self.mRdates if dt < exclude]
-- 
2.43.0


From a69d5b191d52db7f34d6cf2c5b2d522d58175d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:47 +0000
Subject: [PATCH 24/47] fix: separators after an escaped backslash split
 structured text values

---
 src/pycalendar/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 4c28681..06005cb 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -273,7 +273,8 @@ def parseTextList(data, sep=';', always_list=False):
             item = []
         else:
             item.append(s)
-        pre_s = s
+        # An escaped backslash does not escape what follows it
+        pre_s = s if s != '\\' or pre_s != '\\' else ''
 
     results.append(decodeTextValue("".join(item)))
 
@@ -313,7 +314,8 @@ def parseDoubleNestedList(data, maxsize):
             items.append("")
         else:
             items[-1] += s
-        pre_s = s
+        # An escaped backslash does not escape what follows it
+        pre_s = s if s != '\\' or pre_s != '\\' else ''
 
     if len(items) > 1:
         results.append(tuple([decodeTextValue(item) for item in items]))
-- 
2.43.0


From 1106831e3c7d7de239b560fe32f348d42c0591b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:57 +0000
Subject: [PATCH 25/47] fix: escaped commas do not split the values of
 multi-valued text properties

---
 src/pycalendar/multivalue.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/multivalue.py b/src/pycalendar/multivalue.py
index 5fd9db9..988cc1d 100644
--- a/src/pycalendar/multivalue.py
+++ b/src/pycalendar/multivalue.py
@@ -56,11 +56,19 @@ class MultiValue(Value):
         self.mValues = newValues
 
     def parse(self, data, variant):
-        # Tokenize on comma
-        if "," in data:
-            tokens = data.split(",")
+        # Tokenize on comma, except for commas that are escaped
+        if "\\" in data:
+            tokens = [""]
+            escaped = False
+            for c in data:
+                if c == "," and not escaped:
+                    tokens.append("")
+                else:
+                    tokens[-1] += c
+                escaped = c == "\\" and not escaped
         else:
-            tokens = (data,)
+            tokens = data.split(",")
+
         for token in tokens:
             # Create single value, and parse data
             value = Value.createFromType(self.mType)
-- 
2.43.0


From 834d8a07b685ce607ba9666e191b58bdefc5e773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 26/47] fix: read parameters with several values from JSON

---
 src/pycalendar/property.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index a1544c6..69f463b 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -440,7 +440,11 @@ class PropertyBase(object):
                 for name, value in jobject[1].items():
                     # Now add parameter value
                     name = name.upper()
-                    attrvalue = Parameter(name=name.encode("utf-8"), value=value.encode("utf-8"))
+                    if isinstance(value, (list, tuple)):
+                        value = [v.encode("utf-8") for v in value]
+                    else:
+                        value = value.encode("utf-8")
+                    attrvalue = Parameter(name=name.encode("utf-8"), value=value)
                     prop.mParameters.setdefault(name, []).append(attrvalue)
 
             # Get default value type from property name and insert a VALUE parameter if current value type is not default
-- 
2.43.0


From cbcc718d32cd0ab17b888a5b6ce58307ba2c2d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 27/47] fix: vCard name of the UTC offset value type

---
 src/pycalendar/vcard/definitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/vcard/definitions.py b/src/pycalendar/vcard/definitions.py
index 17b86aa..ddc6c14 100644
--- a/src/pycalendar/vcard/definitions.py
+++ b/src/pycalendar/vcard/definitions.py
@@ -77,7 +77,7 @@ Value_INTEGER = "INTEGER"
 Value_TEXT = "TEXT"
 Value_TIME = "TIME"
 Value_URI = "URI"
-Value_UTCOFFSET = "UTCOFFSET"
+Value_UTCOFFSET = "UTC-OFFSET"
 Value_VCARD = "VCARD"
 
 Parameter_ENCODING = "ENCODING"
-- 
2.43.0


From ac6042a756786e66ac86897a16bf23ea70ed16d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 28/47] fix: read structured names and addresses with lists of
 texts from JSON

---
 src/pycalendar/vcard/adr.py | 5 ++++-
 src/pycalendar/vcard/n.py   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/vcard/adr.py b/src/pycalendar/vcard/adr.py
index 3230316..3f247c2 100644
--- a/src/pycalendar/vcard/adr.py
+++ b/src/pycalendar/vcard/adr.py
@@ -117,7 +117,10 @@ class Adr(ValueMixin):
                 child.text = text
 
     def parseJSON(self, jobject):
-        self.mValue = tuple(map(lambda x: x.encode("utf-8"), jobject))
+        self.mValue = tuple([
+            item.encode("utf-8") if isinstance(item, basestring) else tuple([text.encode("utf-8") for text in item])
+            for item in jobject
+        ])
 
     def writeJSON(self, jobject):
         jobject.append(list(self.mValue))
diff --git a/src/pycalendar/vcard/n.py b/src/pycalendar/vcard/n.py
index 11debb2..943bc93 100644
--- a/src/pycalendar/vcard/n.py
+++ b/src/pycalendar/vcard/n.py
@@ -116,7 +116,10 @@ class N(ValueMixin):
                 child.text = text
 
     def parseJSON(self, jobject):
-        self.mValue = tuple(map(lambda x: x.encode("utf-8"), jobject))
+        self.mValue = tuple([
+            item.encode("utf-8") if isinstance(item, basestring) else tuple([text.encode("utf-8") for text in item])
+            for item in jobject
+        ])
 
     def writeJSON(self, jobject):
         jobject.append(list(self.mValue))
-- 
2.43.0


From 616083d1a0dfad147044cccc390656f8087c1fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 29/47] fix: an organization with one unit is the same read
 from JSON as from text

---
 src/pycalendar/vcard/orgvalue.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/vcard/orgvalue.py b/src/pycalendar/vcard/orgvalue.py
index a1c3c2f..04804b8 100644
--- a/src/pycalendar/vcard/orgvalue.py
+++ b/src/pycalendar/vcard/orgvalue.py
@@ -47,7 +47,8 @@ class OrgValue(Value):
             value.text = text
 
     def parseJSONValue(self, jobject):
-        self.mValue = tuple(map(lambda x: x.encode("utf-8"), jobject))
+        units = tuple(map(lambda x: x.encode("utf-8"), jobject))
+        self.mValue = units if len(units) > 1 else (units[0] if len(units) else "")
 
     def writeJSONValue(self, jobject):
         jobject.append([self.mValue] if isinstance(self.mValue, basestring) else list(self.mValue))
-- 
2.43.0


From 9f6a6f7ccde134f649b531954830991a7999adcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 30/47] fix: strict parsing does not reject every request
 status

---
 src/pycalendar/icalendar/requeststatusvalue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/requeststatusvalue.py b/src/pycalendar/icalendar/requeststatusvalue.py
index fdd8e5f..510f88d 100644
--- a/src/pycalendar/icalendar/requeststatusvalue.py
+++ b/src/pycalendar/icalendar/requeststatusvalue.py
@@ -67,7 +67,7 @@ class RequestStatusValue(Value):
 
         if "\\" in code and ParserContext.INVALID_REQUEST_STATUS_VALUE in (ParserContext.PARSER_IGNORE, ParserContext.PARSER_FIX):
             code = code.replace("\\", "")
-        elif ParserContext.INVALID_REQUEST_STATUS_VALUE == ParserContext.PARSER_RAISE:
+        elif "\\" in code and ParserContext.INVALID_REQUEST_STATUS_VALUE == ParserContext.PARSER_RAISE:
             raise ValueError("RequestStatus: cannot have '\\' in value")
 
         # Decoding required
-- 
2.43.0


From d278e84a3426a7abd249fc6c4d00d2fcf9e86659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 31/47] fix: strict parsing does not repair a backslash in a
 geographic position

---
 src/pycalendar/geovalue.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/geovalue.py b/src/pycalendar/geovalue.py
index e33a0da..9c55981 100644
--- a/src/pycalendar/geovalue.py
+++ b/src/pycalendar/geovalue.py
@@ -19,6 +19,7 @@
 from pycalendar import xmlutils
 from pycalendar.exceptions import InvalidData
 from pycalendar.icalendar import xmldefinitions
+from pycalendar.parser import ParserContext
 from pycalendar.value import Value
 from pycalendar import xmldefinitions as xmldefinitions_top
 import xml.etree.cElementTree as XML
@@ -49,7 +50,7 @@ class GeoValue(Value):
         try:
             self.mValue = [float(splits[0]), float(splits[1])]
         except ValueError:
-            if splits[0][-1] == '\\':
+            if splits[0][-1:] == '\\' and ParserContext.BACKSLASH_IN_GEO_VALUE != ParserContext.PARSER_RAISE:
                 try:
                     self.mValue = [float(splits[0][:-1]), float(splits[1])]
                 except ValueError:
-- 
2.43.0


From 8016495ace2c66335026ebf05967169a43f2714d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 32/47] fix: strict parsing includes the date-time options

---
 src/pycalendar/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/parser.py b/src/pycalendar/parser.py
index 7ce1509..0f3b2c1 100644
--- a/src/pycalendar/parser.py
+++ b/src/pycalendar/parser.py
@@ -75,9 +75,10 @@ class ParserContext(object):
         ParserContext.BLANK_LINES_IN_DATA = ParserContext.PARSER_RAISE
         ParserContext.VCARD_2_NO_PARAMETER_VALUES = ParserContext.PARSER_RAISE
         ParserContext.VCARD_2_BASE64 = ParserContext.PARSER_RAISE
+        ParserContext.INVALID_DATETIME_VALUE = ParserContext.PARSER_RAISE
+        ParserContext.INVALID_DATETIME_LEADINGSPACE = ParserContext.PARSER_RAISE
         ParserContext.INVALID_DURATION_VALUE = ParserContext.PARSER_RAISE
         ParserContext.INVALID_ADR_N_VALUES = ParserContext.PARSER_RAISE
         ParserContext.INVALID_REQUEST_STATUS_VALUE = ParserContext.PARSER_RAISE
         ParserContext.BACKSLASH_IN_URI_VALUE = ParserContext.PARSER_RAISE
         ParserContext.BACKSLASH_IN_GEO_VALUE = ParserContext.PARSER_RAISE
-        ParserContext.INVALID_REQUEST_STATUS = ParserContext.PARSER_RAISE
-- 
2.43.0


From 6b78dd289d992f807ea0d2a15fea2a98b1f74a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 33/47] fix: vCard parameters followed by unexpected text are
 rejected instead of looping, and parameters without values can be ignored

---
 src/pycalendar/vcard/property.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 48c09d6..44ee656 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -236,7 +236,7 @@ class Property(PropertyBase):
                         else:  # PARSER_IGNORE and PARSER_FIX
                             parameter_name = None
 
-                        if parameter_name.upper() == "BASE64" and ParserContext.VCARD_2_BASE64 == ParserContext.PARSER_FIX:
+                        if parameter_name is not None and parameter_name.upper() == "BASE64" and ParserContext.VCARD_2_BASE64 == ParserContext.PARSER_FIX:
                             parameter_name = definitions.Parameter_ENCODING
                             parameter_value = definitions.Parameter_Value_ENCODING_B
                             stripValueSpaces = True
@@ -263,6 +263,9 @@ class Property(PropertyBase):
                     if stripValueSpaces:
                         txt = txt.replace(" ", "")
                     return txt
+                else:
+                    # We should never get here but if we do we need to terminate the loop
+                    raise InvalidProperty("Invalid property: missing value separator", data)
 
         except IndexError:
             raise InvalidProperty("Invalid property: index error", data)
-- 
2.43.0


From 068c992f36306e0f37fb15e8b2007616983ada89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:20 +0000
Subject: [PATCH 34/47] fix: property lines without a value separator are
 rejected

---
 src/pycalendar/property.py       | 2 ++
 src/pycalendar/vcard/property.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 69f463b..7e51955 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -313,6 +313,8 @@ class PropertyBase(object):
                     # We should never get here but if we do we need to terminate the loop
                     raise InvalidProperty("Invalid property: missing value separator", data)
 
+            raise InvalidProperty("Invalid property: missing value separator", data)
+
         except IndexError:
             raise InvalidProperty("Invalid property: 'parameter index error'", data)
 
diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 44ee656..b186fc1 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -267,6 +267,8 @@ class Property(PropertyBase):
                     # We should never get here but if we do we need to terminate the loop
                     raise InvalidProperty("Invalid property: missing value separator", data)
 
+            raise InvalidProperty("Invalid property: missing value separator", data)
+
         except IndexError:
             raise InvalidProperty("Invalid property: index error", data)
 
-- 
2.43.0


From c40a3b57d281a63967551d099fd00f4127bd2ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 35/47] fix: JSON output keeps every value of a repeated
 parameter

---
 src/pycalendar/parameter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/parameter.py b/src/pycalendar/parameter.py
index 652b4d6..b31f93b 100644
--- a/src/pycalendar/parameter.py
+++ b/src/pycalendar/parameter.py
@@ -115,4 +115,10 @@ class Parameter(object):
             text.text = value
 
     def writeJSON(self, jobject):
-        jobject[self.getName().lower()] = self.mValues if len(self.mValues) != 1 else self.mValues[0]
+        # A parameter may be repeated, but has only one entry in the JSON object
+        name = self.getName().lower()
+        values = list(self.mValues)
+        if name in jobject:
+            previous = jobject[name]
+            values = (previous if isinstance(previous, list) else [previous]) + values
+        jobject[name] = values if len(values) != 1 else values[0]
-- 
2.43.0


From f7ea1024ff5de1e820738f3c4d2335e3cc37a3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 36/47] fix: filtered output can leave out the value of a photo

---
 src/pycalendar/vcard/property.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index b186fc1..1f01f50 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -276,7 +276,7 @@ class Property(PropertyBase):
     def generateValue(self, os, novalue):
 
         # Special case AB.app PHOTO values
-        if self.mName.upper() == "PHOTO" and self.mValue.getType() == Value.VALUETYPE_BINARY:
+        if self.mName.upper() == "PHOTO" and self.mValue and not novalue and self.mValue.getType() == Value.VALUETYPE_BINARY:
             self.setupValueParameter()
 
             # Must write to temp buffer and then wrap
-- 
2.43.0


From 984a9c0e3d215a13c1f8112380bc8fa2d0f52203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:43 +0000
Subject: [PATCH 37/47] fix: components without an identifier are not written
 in random order

---
 src/pycalendar/icalendar/component.py | 3 ++-
 src/pycalendar/icalendar/valarm.py    | 3 +++
 src/pycalendar/icalendar/vtimezone.py | 3 +++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/component.py b/src/pycalendar/icalendar/component.py
index 3d9defd..5d5540f 100644
--- a/src/pycalendar/icalendar/component.py
+++ b/src/pycalendar/icalendar/component.py
@@ -79,7 +79,8 @@ class Component(ComponentBase):
             return self.mMapKey
 
     def getSortKey(self):
-        return self.getMapKey()
+        # Without an identifier the map key is generated, and different each time
+        return self.getMapKey() if self.mUID else ""
 
     def getMasterKey(self):
         return self.mUID
diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index 8e40c7d..adfaa68 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -407,6 +407,9 @@ class VAlarm(Component):
         # do top-level component changes
         # super.changed()
 
+    def getSortKey(self):
+        return getattr(self, "mMapKey", "")
+
     def finalise(self):
         # Do inherited
         super(VAlarm, self).finalise()
diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index 1390199..b09251d 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -68,6 +68,9 @@ class VTimezone(Component):
     def getMapKey(self):
         return self.mID
 
+    def getSortKey(self):
+        return self.mID
+
     def finalise(self):
         # Get TZID
         temp = self.loadValueString(definitions.cICalProperty_TZID)
-- 
2.43.0


From f514169954b00dbf07cdbe6ba145d0f1ba0954f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:22 +0000
Subject: [PATCH 38/47] fix: instances of an overridden event are expanded in
 order

---
 src/pycalendar/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 06005cb..170138a 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -516,7 +516,5 @@ def set_difference(v1, v2):
     if len(v1) == 0 or len(v2) == 0:
         return v1
 
-    s1 = set(v1)
     s2 = set(v2)
-    s3 = s1.difference(s2)
-    return list(s3)
+    return [item for item in v1 if item not in s2]
-- 
2.43.0


From 0640744e681aa987b78975f729a4d51dce98be0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:25 +0000
Subject: [PATCH 39/47] fix: calendar indexes follow every removal and change
 of UID

---
 src/pycalendar/icalendar/calendar.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index a71e8b9..2742ea6 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -152,12 +152,12 @@ class Calendar(ContainerBase):
 
         # Maps
         if oldUID in self.mOverriddenComponentsByUID:
-            self.mOverriddenComponentsByUID[newUID] = self.mOverriddenComponentsByUID[oldUID]
-            del self.mOverriddenComponentsByUID[oldUID]
+            components = self.mOverriddenComponentsByUID.pop(oldUID)
+            self.mOverriddenComponentsByUID[newUID].extend(components)
         for ctype in self.mMasterComponentsByTypeAndUID:
             if oldUID in self.mMasterComponentsByTypeAndUID[ctype]:
-                self.mMasterComponentsByTypeAndUID[ctype][newUID] = self.mMasterComponentsByTypeAndUID[ctype][oldUID]
-                del self.mMasterComponentsByTypeAndUID[ctype][oldUID]
+                components = self.mMasterComponentsByTypeAndUID[ctype].pop(oldUID)
+                self.mMasterComponentsByTypeAndUID[ctype][newUID].extend(components)
 
     def finalise(self):
         # Get calendar name if present
@@ -330,7 +330,7 @@ class Calendar(ContainerBase):
             if rid:
                 self.mOverriddenComponentsByUID[uid].append(component)
             else:
-                self.mMasterComponentsByTypeAndUID[component.getType()][uid] = component
+                self.mMasterComponentsByTypeAndUID[component.getType()][uid].append(component)
 
     def removeComponent(self, component):
         """
@@ -344,7 +344,17 @@ class Calendar(ContainerBase):
             if rid:
                 self.mOverriddenComponentsByUID[uid].remove(component)
             else:
-                del self.mMasterComponentsByTypeAndUID[component.getType()][uid]
+                self.mMasterComponentsByTypeAndUID[component.getType()][uid].remove(component)
+
+    def removeAllComponent(self, compname=None):
+        """
+        Override to track components by UID.
+        """
+        super(Calendar, self).removeAllComponent(compname)
+
+        if not compname:
+            self.mOverriddenComponentsByUID.clear()
+            self.mMasterComponentsByTypeAndUID.clear()
 
     def deriveComponent(self, recurrenceID):
         """
-- 
2.43.0


From cb86223586357885cb6cab7eaa709f47719c32db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:02 +0000
Subject: [PATCH 40/47] fix: recurrence dates given as periods can be expanded

---
 src/pycalendar/componentbase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index 52ad6e1..7b6e8db 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -538,9 +538,9 @@ class ComponentBase(object):
                                 value.subtractDT(obj.getValue())
                         elif isinstance(obj, PeriodValue):
                             if add:
-                                value.addPeriod(obj.getValue().getStart())
+                                value.addPeriod(obj.getValue())
                             else:
-                                value.subtractPeriod(obj.getValue().getStart())
+                                value.subtractPeriod(obj.getValue())
 
             return True
         else:
-- 
2.43.0


From d26a5b3ca73191c8e23f644fd9cd36caa5d1e403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:33 +0000
Subject: [PATCH 41/47] fix: editing an alarm's action or trigger renews its
 map key

---
 src/pycalendar/icalendar/valarm.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index adfaa68..a402e3f 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -454,7 +454,7 @@ class VAlarm(Component):
             self.mRepeatInterval = temp
 
         # Set a map key for sorting
-        self.mMapKey = "%s:%s" % (self.mAction, self.mTriggerOn if self.mTriggerAbsolute else self.mTriggerBy,)
+        self.initMapKey()
 
         # Alarm status - private to Mulberry
         status = self.loadValueString(definitions.cICalProperty_ALARM_X_ALARMSTATUS)
@@ -473,6 +473,9 @@ class VAlarm(Component):
         if temp is not None:
             self.mLastTrigger = temp
 
+    def initMapKey(self):
+        self.mMapKey = "%s:%s" % (self.mAction, self.mTriggerOn if self.mTriggerAbsolute else self.mTriggerBy,)
+
     def validate(self, doFix=False):
         """
         Validate the data in this component and optionally fix any problems, else raise. If
@@ -534,6 +537,7 @@ class VAlarm(Component):
         self.addProperty(prop)
 
         self.mActionData.add(self)
+        self.initMapKey()
 
     def editTriggerOn(self, dt):
         # Remove existing
@@ -542,6 +546,7 @@ class VAlarm(Component):
         # Updated cached values
         self.mTriggerAbsolute = True
         self.mTriggerOn = dt
+        self.initMapKey()
 
         # Add new
         prop = Property(definitions.cICalProperty_TRIGGER, dt)
@@ -555,6 +560,7 @@ class VAlarm(Component):
         self.mTriggerAbsolute = False
         self.mTriggerBy = duration
         self.mTriggerOnStart = trigger_start
+        self.initMapKey()
 
         # Add new (with parameter)
         prop = Property(definitions.cICalProperty_TRIGGER, duration)
-- 
2.43.0


From 12fa4b6997c239445921ab3794fe4546263525dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:33 +0000
Subject: [PATCH 42/47] fix: editing a free/busy component's times always
 writes its end

---
 src/pycalendar/icalendar/vfreebusy.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/pycalendar/icalendar/vfreebusy.py b/src/pycalendar/icalendar/vfreebusy.py
index f39141e..0f01e05 100644
--- a/src/pycalendar/icalendar/vfreebusy.py
+++ b/src/pycalendar/icalendar/vfreebusy.py
@@ -155,8 +155,8 @@ class VFreeBusy(Component):
         self.mHasStart = self.mHasEnd = True
         self.mStart = start
         self.mEnd = end
-        self.mDuration = False
         self.fixStartEnd()
+        self.mDuration = False
 
         # Remove existing DTSTART & DTEND & DURATION & DUE items
         self.removeProperties(definitions.cICalProperty_DTSTART)
@@ -167,12 +167,8 @@ class VFreeBusy(Component):
         prop = Property(definitions.cICalProperty_DTSTART, start)
         self.addProperty(prop)
 
-        # If its an all day event and the end one day after the start, ignore it
-        temp = start.duplicate()
-        temp.offsetDay(1)
-        if not start.isDateOnly() or end != temp:
-            prop = Property(definitions.cICalProperty_DTEND, end)
-            self.addProperty(prop)
+        prop = Property(definitions.cICalProperty_DTEND, self.mEnd)
+        self.addProperty(prop)
 
     def editTimingStartDuration(self, start, duration):
         # Updated cached values
@@ -192,11 +188,8 @@ class VFreeBusy(Component):
         prop = Property(definitions.cICalProperty_DTSTART, start)
         self.addProperty(prop)
 
-        # If its an all day event and the duration is one day, ignore it
-        if (not start.isDateOnly() or (duration.getWeeks() != 0) or
-                (duration.getDays() > 1)):
-            prop = Property(definitions.cICalProperty_DURATION, duration)
-            self.addProperty(prop)
+        prop = Property(definitions.cICalProperty_DURATION, duration)
+        self.addProperty(prop)
 
     # Generating info
     def expandPeriodComp(self, period, list):
-- 
2.43.0


From fa31567564ea6a0e2cad08dbc0642049f5aa8f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:33 +0000
Subject: [PATCH 43/47] fix: editing a to-do's timing writes DUE or DURATION,
 and no empty STATUS

---
 src/pycalendar/icalendar/vtodo.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index 48efdde..0099edf 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -325,8 +325,28 @@ class VToDo(ComponentRecur):
                 value = definitions.cICalProperty_STATUS_IN_PROCESS
             elif status == definitions.eStatus_VToDo_Cancelled:
                 value = definitions.cICalProperty_STATUS_CANCELLED
-            prop = Property(definitions.cICalProperty_STATUS, value)
-            self.addProperty(prop)
+            if value is not None:
+                prop = Property(definitions.cICalProperty_STATUS, value)
+                self.addProperty(prop)
+
+    def editTimingStartEnd(self, start, end):
+        super(VToDo, self).editTimingStartEnd(start, end)
+
+        # A to-do ends when it is due, and that is never implied by the start
+        self.removeProperties(definitions.cICalProperty_DTEND)
+        self.mHasEnd = True
+        prop = Property(definitions.cICalProperty_DUE, self.mEnd)
+        self.addProperty(prop)
+
+    def editTimingStartDuration(self, start, duration):
+        super(VToDo, self).editTimingStartDuration(start, duration)
+
+        # A to-do with a duration is due, and that is never implied by the start
+        self.removeProperties(definitions.cICalProperty_DURATION)
+        self.mHasEnd = True
+        self.mDuration = True
+        prop = Property(definitions.cICalProperty_DURATION, duration)
+        self.addProperty(prop)
 
     def editCompleted(self, completed):
         # Remove existing COMPLETED item
-- 
2.43.0


From 05c8824f50f5b66c4d6d1674caece7ecb9e2f3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:33 +0000
Subject: [PATCH 44/47] fix: editing timing and recurrence writes the values
 that are remembered

---
 src/pycalendar/icalendar/componentrecur.py | 24 ++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 9974df6..9db47a8 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -539,8 +539,9 @@ class ComponentRecur(Component):
         self.mHasStart = self.mHasEnd = True
         self.mStart = start
         self.mEnd = end
-        self.mDuration = False
         self.FixStartEnd()
+        self.mDuration = False
+
         # Remove existing DTSTART & DTEND & DURATION & DUE items
         self.removeProperties(definitions.cICalProperty_DTSTART)
         self.removeProperties(definitions.cICalProperty_DTEND)
@@ -554,9 +555,11 @@ class ComponentRecur(Component):
         # If its an all day event and the end one day after the start, ignore it
         temp = start.duplicate()
         temp.offsetDay(1)
-        if not start.isDateOnly() or end != temp:
-            prop = Property(definitions.cICalProperty_DTEND, end)
+        if not start.isDateOnly() or self.mEnd != temp:
+            prop = Property(definitions.cICalProperty_DTEND, self.mEnd)
             self.addProperty(prop)
+        else:
+            self.mHasEnd = False
 
     def editTimingStartDuration(self, start, duration):
         # Updated cached values
@@ -577,9 +580,13 @@ class ComponentRecur(Component):
         self.addProperty(prop)
 
         # If its an all day event and the duration is one day, ignore it
-        if (not start.isDateOnly() or (duration.getWeeks() != 0) or (duration.getDays() > 1)):
+        temp = start.duplicate()
+        temp.offsetDay(1)
+        if not start.isDateOnly() or self.mEnd != temp:
             prop = Property(definitions.cICalProperty_DURATION, duration)
             self.addProperty(prop)
+        else:
+            self.mDuration = False
 
     def editRecurrenceSet(self, recurs):
         # Must have items
@@ -605,9 +612,15 @@ class ComponentRecur(Component):
         for iter in self.mRecurrences.getDates():
             prop = Property(definitions.cICalProperty_RDATE, iter)
             self.addProperty(prop)
+        for iter in self.mRecurrences.getPeriods():
+            prop = Property(definitions.cICalProperty_RDATE, iter)
+            self.addProperty(prop)
         for iter in self.mRecurrences.getExdates():
             prop = Property(definitions.cICalProperty_EXDATE, iter)
             self.addProperty(prop)
+        for iter in self.mRecurrences.getExperiods():
+            prop = Property(definitions.cICalProperty_EXDATE, iter)
+            self.addProperty(prop)
 
     def excludeRecurrence(self, start):
         # Must have items
@@ -640,6 +653,9 @@ class ComponentRecur(Component):
         for iter in self.mRecurrences.getDates():
             prop = Property(definitions.cICalProperty_RDATE, iter)
             self.addProperty(prop)
+        for iter in self.mRecurrences.getPeriods():
+            prop = Property(definitions.cICalProperty_RDATE, iter)
+            self.addProperty(prop)
 
     def initFromMaster(self):
         # Only if not master
-- 
2.43.0


From f507fa2aa287fb09bef1f3ebff63ceeaf22c935f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:33 +0000
Subject: [PATCH 45/47] fix: a DATE in place of a DATE-TIME, or the other way
 round, is refused when so configured

---
 src/pycalendar/property.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 7e51955..02a54d9 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -23,6 +23,7 @@ from pycalendar.durationvalue import DurationValue
 from pycalendar.exceptions import InvalidProperty
 from pycalendar.integervalue import IntegerValue
 from pycalendar.multivalue import MultiValue
+from pycalendar.parser import ParserContext
 from pycalendar.periodvalue import PeriodValue
 from pycalendar.plaintextvalue import PlainTextValue
 from pycalendar.unknownvalue import UnknownValue
@@ -267,6 +268,7 @@ class PropertyBase(object):
             # Now parse the data
             prop.mValue.parse(txt, prop.sVariant)
 
+            prop._checkDateTimeValue(value_type, data)
             prop._postCreateValue(value_type)
 
             return prop
@@ -470,6 +472,7 @@ class PropertyBase(object):
                 prop.mValue.parseJSONValue(values[0])
 
             # Special post-create for some types
+            prop._checkDateTimeValue(value_type, jobject)
             prop._postCreateValue(value_type)
 
             return prop
@@ -544,8 +547,25 @@ class PropertyBase(object):
         except ValueError as e:
             raise InvalidProperty("Invalid property value: '{}'".format(e), data)
 
+        self._checkDateTimeValue(value_type, data)
         self._postCreateValue(value_type)
 
+    def _checkDateTimeValue(self, value_type, data):
+        """
+        Look for a DATE value where a DATE-TIME is specified, or the other way round.
+
+        @param value_type: the iCalendar VALUE type for this property
+        @type value_type: C{str}
+        """
+        if (
+            ParserContext.INVALID_DATETIME_VALUE == ParserContext.PARSER_RAISE and
+            value_type in (Value.VALUETYPE_DATE, Value.VALUETYPE_DATETIME)
+        ):
+            values = self.mValue.getValues() if isinstance(self.mValue, MultiValue) else (self.mValue,)
+            for value in values:
+                if value.getType() != value_type:
+                    raise InvalidProperty("Invalid property value: DATE and DATE-TIME do not match", data)
+
     def _postCreateValue(self, value_type):
         """
         Do some extra work after creating a value in this property.
-- 
2.43.0


From 38d095a9169c9fcdda3530fa8cc6d0c184c3ef79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:42 +0000
Subject: [PATCH 46/47] fix: days since 1970 do not count a leap day in 1800,
 1900, 2100

---
 src/pycalendar/utils.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 170138a..4494e44 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -404,14 +404,11 @@ def leapDaysSince1970(year_offset):
     try:
         return cachedLeapDaysSince1970[year_offset]
     except KeyError:
-        if year_offset > 2:
-            result = (year_offset + 1) / 4
-        elif year_offset < -1:
-            # Python will round down negative numbers (i.e. -5/4 = -2, but we want -1), so
-            # what is (year_offset - 2) in C code is actually (year_offset - 2 + 3) in Python.
-            result = (year_offset + 1) / 4
-        else:
-            result = 0
+        # Every fourth year up to the one before, less the centuries that are not leap years (see isLeapYear)
+        last = year_offset + 1969
+        result = last / 4 - 1969 / 4
+        last = max(last, 1752)
+        result -= (last / 100 - last / 400) - (1969 / 100 - 1969 / 400)
         cachedLeapDaysSince1970[year_offset] = result
         return result
 
-- 
2.43.0


From b6d8607f3fcf33f2b95e9a3e63a17ac20289a8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:23 +0000
Subject: [PATCH 47/47] fix: a PHOTO whose name and parameters exceed one line
 was written with a line of more than 75 octets

---
 src/pycalendar/vcard/property.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 1f01f50..961457d 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -293,6 +293,12 @@ class Property(PropertyBase):
 
             # Write value
             sout.write(":")
+
+            # A property name and parameters too long for one line have to be folded
+            if len(sout.getvalue()) > 75:
+                super(Property, self).generateValue(os, novalue)
+                return
+
             sout.write("\r\n")
 
             value = self.mValue.getText()
-- 
2.43.0

