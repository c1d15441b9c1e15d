"""What the fields of the data model hold.

The table is the declared data model (confirmed by reading the constructors);
fields that are not listed are inferred from the constants and constructor
calls assigned to them inside their class, and are otherwise untyped.
"""
from . import front


class Types(object):
    def __init__(self, prog):
        self.p = p = prog
        C = lambda n: p.cls(n)
        P = "pycalendar."
        I = P + "icalendar."
        DT = C(P + "datetime:DateTime")
        DUR = C(P + "duration:Duration")
        PER = C(P + "period:Period")
        REC = C(I + "recurrence:Recurrence")
        RSET = C(I + "recurrenceset:RecurrenceSet")
        CB = C(P + "componentbase:ComponentBase")
        ICOMP = C(I + "component:Component")
        CREC = C(I + "componentrecur:ComponentRecur")
        CAL = C(I + "calendar:Calendar")
        TZ = C(P + "timezone:Timezone")
        VALUE = C(P + "value:Value")
        PARAM = C(P + "parameter:Parameter")
        PBASE = C(P + "property:PropertyBase")
        ADR = C(P + "vcard.adr:Adr")
        N = C(P + "vcard.n:N")
        VTZ = C(I + "vtimezone:VTimezone")
        VTZE = C(I + "vtimezoneelement:VTimezoneElement")
        self.DT, self.DUR, self.PER, self.REC, self.RSET = DT, DUR, PER, REC, RSET
        self.CB, self.VALUE, self.PARAM, self.PBASE, self.CAL = CB, VALUE, PARAM, PBASE, CAL
        opt = lambda t: [t, "None"]
        subs = lambda c: ("oneof",) + tuple(c.allsubs())
        self.values = tuple(v for v in VALUE.allsubs() if v is not VALUE)
        self.icomps = tuple(c for c in ICOMP.allsubs() if c is not ICOMP)
        self.props = tuple(c for c in PBASE.allsubs() if c is not PBASE)
        self.leafcomps = tuple(c for c in CB.allsubs() if c not in (CB, ICOMP, CREC) and c.name != "ContainerBase")
        intl = ("list", "int")
        t = {
            DT: {"mYear": "int", "mMonth": "int", "mDay": "int", "mHours": "int", "mMinutes": "int", "mSeconds": "int",
                 "mDateOnly": "bool", "mTZUTC": "bool", "mTZID": ["str", "None"], "mTZOffset": ["int", "None"],
                 "mPosixTimeCached": "bool", "mPosixTime": "int"},
            DUR: {"mForward": "bool", "mWeeks": "int", "mDays": "int", "mHours": "int", "mMinutes": "int", "mSeconds": "int"},
            PER: {"mStart": DT, "mEnd": opt(DT), "mDuration": opt(DUR), "mUseDuration": "bool"},
            REC: {"mFreq": "int", "mUseCount": "bool", "mCount": "int", "mUseUntil": "bool", "mUntil": opt(DT), "mInterval": "int",
                  "mBySeconds": opt(intl), "mByMinutes": opt(intl), "mByHours": opt(intl),
                  "mByDay": opt(("list", ("tuple", "int", "int"))), "mByMonthDay": opt(intl), "mByYearDay": opt(intl),
                  "mByWeekNo": opt(intl), "mByMonth": opt(intl), "mBySetPos": opt(intl), "mWeekstart": "int",
                  "mCached": "bool", "mCacheStart": opt(DT), "mCacheUpto": opt(DT), "mFullyCached": "bool",
                  "mRecurrences": opt(("list", DT))},
            RSET: {"mRrules": ("list", REC), "mExrules": ("list", REC), "mRdates": ("list", DT), "mExdates": ("list", DT),
                   "mRperiods": ("list", PER), "mExperiods": ("list", PER)},
            CB: {"mParentComponent": opt(("oneof",) + self.leafcomps), "mComponents": ("list", ("oneof",) + tuple(c for c in self.leafcomps if c.name not in ("Calendar", "Card"))),
                 "mProperties": ("dict", "str", ("list", ("oneof",) + self.props)), "cardinalityChecks": ("obj",)},
            ICOMP: {"mUID": "str", "mSeq": "int", "mOriginalSeq": "int", "mChanged": "bool", "mMapKey": "str",
                    "mParentComponent": opt(("oneof", CAL) + self.icomps),
                    "mComponents": ("list", ("oneof",) + self.icomps),
                    "mProperties": ("dict", "str", ("list", p.cls(I + "property:Property")))},
            CAL: {"mName": "str", "mDescription": "str", "mParentComponent": "None",
                  "mComponents": ("list", ("oneof",) + self.icomps),
                  "mProperties": ("dict", "str", ("list", p.cls(I + "property:Property"))),
                  "mMasterComponentsByTypeAndUID": ("dict", "str", ("dict", "str", ("list", ("oneof",) + self.icomps))),
                  "mOverriddenComponentsByUID": ("dict", "str", ("list", ("oneof",) + self.icomps))},
            CREC: {"mMaster": ("oneof",) + tuple(c for c in CREC.allsubs() if c is not CREC), "mSummary": ["str", "None"],
                   "mStamp": DT, "mHasStamp": "bool", "mStart": DT, "mHasStart": "bool",
                   "mEnd": DT, "mHasEnd": "bool", "mDuration": "bool", "mHasRecurrenceID": "bool", "mAdjustFuture": "bool",
                   "mAdjustPrior": "bool", "mRecurrenceID": opt(DT), "mRecurrences": opt(RSET)},
            C(I + "componentexpanded:ComponentExpanded"): {
                "mOwner": ("oneof",) + tuple(c for c in CREC.allsubs() if c is not CREC), "mInstanceStart": DT,
                "mInstanceEnd": opt(DT), "mRecurring": "bool"},
            C(I + "freebusy:FreeBusy"): {"mType": "int", "mPeriod": PER},
            C(I + "valarm:VAlarm"): {"mAction": "int", "mTriggerAbsolute": "bool", "mTriggerOnStart": "bool", "mTriggerOn": DT,
                                     "mTriggerBy": DUR, "mRepeats": "int", "mRepeatInterval": DUR, "mStatusInit": "bool",
                                     "mAlarmStatus": "int", "mLastTrigger": DT, "mNextTrigger": DT, "mDoneCount": "int",
                                     "mActionData": opt(("oneof",) + tuple(C(I + "valarm:VAlarm.VAlarmAction").allsubs()))},
            C(I + "valarm:VAlarm.VAlarmAction"): {"mType": "int", "mSpeakText": "str", "mDescription": "str", "mSummary": "str",
                                                  "mAttendees": ("list", "str")},
            C(I + "vevent:VEvent"): {"mStatus": "int"},
            C(I + "vjournal:VJournal"): {"mStatus": "int"},
            C(I + "vtodo:VToDo"): {"mPriority": "int", "mStatus": "int", "mPercentComplete": "int", "mCompleted": DT,
                                   "mHasCompleted": "bool"},
            C(I + "vfreebusy:VFreeBusy"): {"mStart": DT, "mHasStart": "bool", "mEnd": DT, "mHasEnd": "bool", "mDuration": "bool",
                                           "mCachedBusyTime": "bool", "mSpanPeriod": opt(PER),
                                           "mBusyTime": opt(("list", C(I + "freebusy:FreeBusy")))},
            VTZ: {"mID": "str", "mUTCOffsetSortKey": ["int", "None"], "mCachedExpandAllMaxYear": ["int", "None"],
                  "mCachedOffsets": opt(("dict", "any", ("tuple", "int", "str"))),
                  "mCachedExpandAll": opt(("list", ("tuple", DT, "int", "int", "str"))),
                  "mComponents": ("list", ("oneof",) + tuple(c for c in VTZE.allsubs() if c is not VTZE))},
            VTZE: {"mStart": DT, "mTZName": "str", "mUTCOffset": "int", "mUTCOffsetFrom": "int", "mRecurrences": RSET,
                   "mCachedExpandBelow": opt(DT), "mCachedExpandBelowItems": opt(("list", DT))},
            C(I + "vunknown:UnknownComponent"): {"mType": "str"},
            PBASE: {"mName": "str", "mParameters": ("dict", "str", ("list", PARAM)), "mValue": opt(("oneof",) + self.values),
                    "mGroup": ["str", "None"]},
            PARAM: {"mName": "str", "mValues": ("list", "str")},
            TZ: {"mUTC": "bool", "mTimezone": ["str", "int", "None"]},
            ADR: {"mValue": ("tuple",) + ("str",) * 7},
            N: {"mValue": ("tuple",) + ("str",) * 5},
            C(P + "floatvalue:FloatValue"): {"mValue": "float"},
            C(P + "geovalue:GeoValue"): {"mValue": ("list", "float")},
            C(P + "integervalue:IntegerValue"): {"mValue": "int"},
            C(P + "utcoffsetvalue:UTCOffsetValue"): {"mValue": "int"},
            C(P + "plaintextvalue:PlainTextValue"): {"mValue": "str"},
            C(P + "multivalue:MultiValue"): {"mType": "int", "mValues": ("list", ("oneof",) + tuple(
                v for v in self.values if v.name not in ("MultiValue",)))},
            C(I + "requeststatusvalue:RequestStatusValue"): {"mValue": ("list", "str")},
            C(P + "vcard.orgvalue:OrgValue"): {"mValue": ("tuple", "str", "str")},
            C(P + "datetimevalue:DateTimeValue"): {"mValue": DT},
            C(P + "durationvalue:DurationValue"): {"mValue": DUR},
            C(P + "periodvalue:PeriodValue"): {"mValue": PER},
            C(I + "recurrencevalue:RecurrenceValue"): {"mValue": REC},
            C(P + "vcard.adrvalue:AdrValue"): {"mValue": ADR},
            C(P + "vcard.nvalue:NValue"): {"mValue": N},
            C(P + "timezonedb:TimezoneDatabase"): {"dbpath": "str", "calendar": CAL, "tzcache": ("dict", "str", "str"),
                                                   "stdtzcache": ("set", "str"), "notstdtzcache": ("set", "str")},
            C(P + "outputfilter:OutputFilter"): {"mType": "str", "mAllSubComponents": "bool", "mSubComponents": ("obj",),
                                                 "mAllProperties": "bool", "mProperties": ("obj",)},
        }
        self.table = t
        self._inferred = {}

    def __call__(self, c, name):
        for x in c.mro:
            d = self.table.get(x)
            if d is not None and name in d:
                return d[name]
        return self.infer(c, name)

    def infer(self, c, name):
        k = (c, name)
        if k in self._inferred:
            return self._inferred[k]
        kinds = []
        ok = True
        for x in c.mro:
            for fi in x.methods.values():
                for n in front.walk(fi.node):
                    if n.t == "Assign":
                        for t in n.targets:
                            if t.t == "Attribute" and t.attr == name and t.value.t == "Name" and fi.params and t.value.id == fi.params[0]:
                                s = self.lit(n.value, x.module)
                                if s is None:
                                    ok = False
                                elif s not in kinds:
                                    kinds.append(s)
        r = kinds if ok and kinds else None
        self._inferred[k] = r
        return r

    def lit(self, e, mod):
        if e.t == "Num":
            return "int" if isinstance(e.n, int) else "float"
        if e.t == "Str":
            return "str"
        if e.t == "Name":
            if e.id in ("True", "False"):
                return "bool"
            if e.id == "None":
                return "None"
        if e.t == "Call" and e.func.t == "Name":
            r = self.p.resolve(mod, e.func.id)
            from .model import ClassInfo
            if isinstance(r, ClassInfo):
                return r
        return None
