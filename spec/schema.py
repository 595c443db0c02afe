"""The DASH7 ALP wire format as this crate implements it, one entry per type, per variant (spec, subiot, subiot_v0_0, wizzilab)."""
from codec import *

OPC = [("Nop", 0, "Nop"), ("ReadFileData", 1, "ReadFileData"), ("ReadFileProperties", 2, "OpFileId"), ("WriteFileData", 4, "FileData"),
       ("WriteFileDataFlush", 5, "FileData"), ("WriteFileProperties", 6, "OpFileProperties"), ("ActionQuery", 8, "ActionQuery"),
       ("BreakQuery", 9, "ActionQuery"), ("PermissionRequest", 10, "PermissionRequest"), ("VerifyChecksum", 11, "ActionQuery"),
       ("ExistFile", 16, "OpFileId"), ("CreateNewFile", 17, "OpFileProperties"), ("DeleteFile", 18, "OpFileId"), ("RestoreFile", 19, "OpFileId"),
       ("FlushFile", 20, "OpFileId"), ("CopyFile", 23, "CopyFile"), ("ExecuteFile", 31, "OpFileId"), ("ReturnFileData", 32, "FileData"),
       ("ReturnFileProperties", 33, "OpFileProperties"), ("Status", 34, "StatusOperand"), ("ResponseTag", 35, "ResponseTag"),
       ("TxStatus", 38, "TxStatusOperation"), ("Chunk", 48, "Chunk"), ("Logic", 49, "Logic"), ("Forward", 50, "Forward"),
       ("IndirectForward", 51, "IndirectForward"), ("RequestTag", 52, "RequestTag"), ("Extension", 63, "Extension")]

class OpcL(Leaf):
    """the opcode field of an operation: read from the wire, written from the context"""
    def __init__(s, T):
        super().__init__("OpCode", T.path, 6, ty=T)
    def W(s, o, v, env): return f"w_OpCode({o}, opc)"
    def OK(s, v, env): return f"({v} == opc && ok_OpCode({v}))"
    def MN(s, o, v, env): return f"mn_OpCode({o}, opc);"
    def RT(s, o, v, S, env): return f"rt_OpCode({o}, opc, {S});"
    def AP(s, z, o, v, env): return f"ap_OpCode({z}, {o}, opc);"
    def pe(s, o, v, f): return s.ty.pe(o, f["opc"], ())
    def gen(s, R, f): return f["opc"]
    def pok(s, v, f): return v == f["opc"]

class LenL(Leaf):
    def __init__(s): super().__init__("Length", "crate::app::operation::length::Length", None, 0, 32)
    def mk(s, n): return Rec("Length", "t", [("0", n)], "Length")
    def pd(s, b, p, f):
        k, q = rd(b, p, 2)
        x, q = rd(b, q, 6 + 8 * k)
        return s.mk(x), q
    def pe(s, o, v, f):
        v = v[0]
        k = 0 if v < 64 else 1 if v < 0x4000 else 2 if v < 0x400000 else 3
        return o + wn(k, 2) + wn(v, 6 + 8 * k)
    def gen(s, R, f): return s.mk(R.choice([0, 1, 5, 62, 63, 64, 65, 255, 256, 0x3fff, 0x4000, 0x4001, 0x3fffff, 0x400000, 0x3fffffff, R.randrange(64), R.randrange(1 << 14), R.randrange(1 << 22), R.randrange(1 << 30)]))
    def pok(s, v, f): return v[0] < 1 << 30
def small_len(R, f=None): return Rec("Length", "t", [("0", R.choice([255, 256, 300]) if R.random() < .01 else R.choice([0, 1, 2, 3, 7, 8, 20, 63, 64, 65, 70]))], "Length")
def fit(field):
    """length generator: leave the real length to pygen"""
    return small_len

def vi_e(v):
    for e in range(8):
        if v <= 31 * 4 ** e: return e
    raise Bad("too large")
class VarL(Leaf):
    def __init__(s): super().__init__("VarInt", "crate::types::VarInt", 8)
    def mk(s, v, c=False): return Rec("VarInt", "s", [("value", v), ("ceil", c)], "VarInt")
    def pd(s, b, p, f):
        e, q = rd(b, p, 3)
        m, q = rd(b, q, 5)
        return s.mk(4 ** e * m), q
    def pe(s, o, v, f):
        e = vi_e(v.value)
        m = v.value // 4 ** e + (1 if v.ceil and v.value % 4 ** e else 0)
        return o + wn(e, 3) + wn(m, 5)
    def gen(s, R, f): return s.mk(4 ** R.randrange(8) * R.randrange(32))
    def pok(s, v, f): return not v.ceil and v.value <= 507904 and v.value % 4 ** vi_e(v.value) == 0

class Lp(Ty):
    """length-prefixed content: the length counts exactly the bytes that follow"""
    def __init__(s, name, inner, ctx, idexpr, pyid):
        s.name, s.path, s.inner, s.ctx, s.idexpr, s.pyid = name, inner.path, inner, list(ctx), idexpr, pyid
        s.bits, s.bm, s.mx, s.exc, s.keys = None, 0, None, inner.exc, []
    def n(s): return f"boz(w_{s.inner.name}(Seq::empty(), v)->0).len()"
    def L(s): return f"crate::app::operation::length::Length(clen({s.n()}))"
    def d_body(s): return f"match d_Length(s, p) {{ None => None, Some((l, q)) => d_{s.inner.name}(s, q, {s.idexpr}, l.0) }}"
    def w_body(s): return f"w_lp(o, w_{s.inner.name}(Seq::empty(), v))"
    def ok_body(s): return f"{s.n()} < 0x4000_0000 && ok_{s.inner.name}(v, {s.idexpr}, {s.n()} as u32)"
    def exc_body(s): return f"exc_{s.inner.name}(v)"
    def st_mn(s):
        return super().st_mn()
    def mn_body(s):
        I = s.inner.name
        return (f"let c = w_{I}(Seq::empty(), v); if ok_{s.name}(v{s.names()}) {{ mn_{I}(Seq::empty(), v, {s.idexpr}, {s.n()} as u32); }} "
                f"if w_{s.name}(o, v) is Some {{ let L = {s.L()}; mn_Length(o, L); let o1 = w_Length(o, L)->0; l_mn_bytes(o1, boz(c->0)); l_pt(o, o1, w_{s.name}(o, v)->0); }} "
                f"if ok_{s.name}(v{s.names()}) {{ mn_Length(o, {s.L()}); }}")
    def rt_body(s):
        I = s.inner.name
        return (f"let e = Seq::<bool>::empty(); let x = w_{I}(e, v)->0; mn_{I}(e, v, {s.idexpr}, {s.n()} as u32); let L = {s.L()}; mn_Length(o, L); let o1 = w_Length(o, L)->0; "
                f"l_mn_bytes(o1, boz(x)); l_boz_bob(x); l_pt(o1, w_{s.name}(o, v)->0, s); rt_Length(o, L, s); ap_{I}(o1, e, v, {s.idexpr}, L.0); assert(o1 + e =~= o1); "
                f"assert(w_{I}(o1, v) == Some(o1 + x)); rt_{I}(o1, v, {s.idexpr}, L.0, s);")
    def ap_body(s):
        I = s.inner.name
        return f"let c = w_{I}(Seq::empty(), v); if c is Some {{ let L = {s.L()}; ap_Length(z, o, L); if w_Length(o, L) is Some {{ l_ap_bytes(z, w_Length(o, L)->0, boz(c->0)); }} }}"
    def dl_body(s):
        I = s.inner.name
        return f"dl_Length(s, p); let l = (d_Length(s, p)->0).0; let q = (d_Length(s, p)->0).1; dl_{I}(s, q, {s.idexpr}, l.0); let v = (d_{I}(s, q, {s.idexpr}, l.0)->0).0; okn_{I}(v, {s.idexpr}, l.0);"
    def dl_more(s, D): return [f"pos(s, p) && {D} is Some ==> ({D}->0).1 >= p + 8"]
    def contracts(s, C): pass
    def pd(s, b, p, a):
        l, q = LenL().pd(b, p, {})
        return s.inner.pd(b, q, (s.pyid(a[0]), l[0]))
    def pe(s, o, v, a):
        x = s.inner.pe("", v, (s.pyid(a[0]), 0))
        x += "0" * (-len(x) % 8)
        return LenL().pe(o, Rec("Length", "t", [("0", len(x) // 8)]), {}) + x
    def gen(s, R, a): return s.inner.gen(R, (s.pyid(a[0]), R.choice([0, 1, 2, 5, 62, 63, 64, 65, 100])))
    def pok(s, v, a):
        try: n = -(-len(s.inner.pe("", v, (s.pyid(a[0]), 0))) // 8)
        except Bad: return False
        return s.inner.pok(v, (s.pyid(a[0]), n))

class Bare(Lp):
    """the same content without a length in front (subiot v0.0): raw content cannot be delimited, so it has to be empty"""
    def d_body(s): return f"d_{s.inner.name}(s, p, {s.idexpr}, 0u32)"
    def w_body(s): return f"w_{s.inner.name}(o, v)"
    def ok_body(s): return f"ok_{s.inner.name}(v, {s.idexpr}, 0u32)"
    def mn_body(s): return f"mn_{s.inner.name}(o, v, {s.idexpr}, 0u32);"
    def rt_body(s): return f"rt_{s.inner.name}(o, v, {s.idexpr}, 0u32, s);"
    def ap_body(s): return f"ap_{s.inner.name}(z, o, v, {s.idexpr}, 0u32);"
    def dl_body(s): return f"dl_{s.inner.name}(s, p, {s.idexpr}, 0u32);"
    def dl_more(s, D): return []
    def pd(s, b, p, a): return s.inner.pd(b, p, (s.pyid(a[0]), 0))
    def pe(s, o, v, a): return s.inner.pe(o, v, (s.pyid(a[0]), 0))
    def gen(s, R, a): return s.inner.gen(R, (s.pyid(a[0]), R.choice([0, 0, 0, 3])))
    def pok(s, v, a): return s.inner.pok(v, (s.pyid(a[0]), 0))

def nm(n): return lambda x: getattr(x, "name", None) == n

def build(variant):
    wz, sub, v00 = variant == "wizzilab", variant.startswith("subiot"), variant == "subiot_v0_0"
    T = {}
    def add(t): T[t.name] = t; return t
    def S(name, path, fields, **kw): return add(Struct(name, "crate::" + path, fields, **kw))
    def E(name, path, nb, txt, default=None, disc=False):
        vs = []
        for i, w in enumerate(txt.split()):
            a = w.split(":")
            vs.append((a[0], int(a[1], 0) if len(a) > 1 else i, None, "id"))
        t = add(IdEnum(name, "crate::" + path, nb, vs, default=default))
        t.disc = disc
        return t
    LEN, VI = LenL(), VarL()
    OP = "app::operation::"
    OpCode = S("OpCode", "app::action::OpCode", [F("0", U8(6))])
    octx = [("opc", OpCode.path)]
    def Op(name, tn, fields, mod=OP, **kw):
        return S(name, mod + tn, fields, ctx=octx, keyctx="OpCode", d_ctx=False, w_ctx=True, opc=True, **kw)
    opc = F("opcode", OpcL(OpCode))
    StatusCode = S("StatusCode", OP + "StatusCode", [F("0", U8())])
    ActionStatus = S("ActionStatus", OP + "ActionStatus", [F("action_id", U8()), F("status", StatusCode.use())])
    Permission = add(IdEnum("Permission", "crate::" + OP + "Permission", 8, [("Dash7", 0x42, ArrL(8), "id")]))
    Permission.default, Permission.defpay = "Dash7", "mkarr(Seq::new(8, |i: int| 0u8))"
    PermissionLevel = E("PermissionLevel", OP + "PermissionLevel", 8, "User Root", "User")
    ActionHeader = S("ActionHeader", OP + "ActionHeader", [F("group", B()), F("response", B())])
    hd = F("header", ActionHeader.use())
    FileOffset = S("FileOffset", OP + "file_offset::FileOffset", [F("file_id", U8()), F("offset", LEN)])
    off = FileOffset.use()
    # data link, physical and network vocabulary
    GroupCondition = E("GroupCondition", "transport::GroupCondition", 2, "Any NotEqual Equal GreaterThan", "Any")
    NlsMethod = E("NlsMethod", "network::NlsMethod", 3 if wz else 4, "None AesCtr AesCbcMac128 AesCbcMac64 AesCbcMac32 AesCcm128 AesCcm64 AesCcm32", "None")
    NlsState = add(CtxEnum("NlsState", "crate::network::NlsState", [("nls_method", NlsMethod.path)], "NlsMethod",
        [(n, f"{NlsMethod.path}::{n}", nm(n), None if n == "None" else ArrL(5)) for n, _, _, _ in NlsMethod.vs], default="None"))
    AddressType = E("AddressType", "network::AddressType", 2, "NbId NoId UId VId", "NoId")
    Address = add(CtxEnum("Address", "crate::network::Address", [("address_type", AddressType.path)], "AddressType",
        [(n, f"{AddressType.path}::{n}", nm(n), c) for n, c in (("NbId", VI), ("NoId", None), ("UId", U64()), ("VId", U16()))], default="NoId"))
    AccessClass = S("AccessClass", "link::AccessClass", [F("specifier", U8(4)), F("mask", U8(4))])
    def ctxof(f): return lambda fr: (fr[f],)
    af = [F("group_condition", GroupCondition.use())] if wz else [Pad(2)]
    af += [F("address_type", AddressType.use(), upd=f"self.address.id_spec()->0")]
    if wz: af += [F("use_vid", B())]
    af += [F("nls_method", NlsMethod.use(), upd="self.nls_state.id_spec()->0"), F("access_class", AccessClass.use()),
           F("address", Address.use("{address_type}", py=ctxof("address_type"))), F("nls_state", NlsState.use("{nls_method}", py=ctxof("nls_method")))]
    Addressee = S("Addressee", "network::addressee::Addressee", af)
    Bandwidth = E("Bandwidth", "physical::Bandwidth", 2, "KHz200 KHz25", "KHz200", True)
    ChannelBand = E("ChannelBand", "physical::ChannelBand", 3, "Rfu0 Rfu1 Band433 Band868 Band915", "Rfu0", True)
    ChannelClass = E("ChannelClass", "physical::ChannelClass", 2, "LoRate Lora NormalRate HiRate", "LoRate", True)
    ChannelCoding = E("ChannelCoding", "physical::ChannelCoding", 2, "Pn9 Rfu FecPn9 Cw", "Pn9", True)
    E("CsmaCaMode", "physical::CsmaCaMode", 4, "Unc Aind Raind Rigd", "Unc")
    add(IdEnum("NoiseFloor", "crate::physical::NoiseFloor", 4, [("Fixed", 0, U8(), "id"), ("ForgetFactor", 1, U8(), "id"), ("Other", None, None, "unit_")]))
    ChannelHeader = S("ChannelHeader", "physical::ChannelHeader", [Pad(1), F("channel_band", ChannelBand.use()), F("channel_class", ChannelClass.use()), F("channel_coding", ChannelCoding.use())])
    Channel = S("Channel", "physical::Channel", [F("header", ChannelHeader.use()), F("index", U16())])
    CSI = S("ChannelStatusIdentifier", "physical::ChannelStatusIdentifier", [F("channel_band", ChannelBand.use()), F("bandwidth", Bandwidth.use()), F("index", U16(11))])
    SubBand = S("SubBand", "physical::SubBand", [F("channel_index_start", U16()), F("channel_index_end", U16()), F("eirp", I8L()), F("clear_channel_assessment", U8()), F("duty", U8())])
    ChannelStatus = S("ChannelStatus", "physical::ChannelStatus", [F("identifier", CSI.use()), F("noise_floor", U8())], default=False)
    SubProfile = S("SubProfile", "link::SubProfile", [F("subband_bitmap", U8()), F("scan_automation_period", VI)])
    for t in (SubBand, ChannelStatus, SubProfile): t.seq = True
    LinkAccessProfile = S("LinkAccessProfile", "link::AccessProfile", [F("channel_header", ChannelHeader.use()), F("sub_profiles", SeqL(SubProfile, 4)), F("sub_bands", SeqL(SubBand, 8))])
    # data
    ActionCondition = E("ActionCondition", "data::ActionCondition", 3, "List Read Write WriteFlush", "List")
    StorageClass = E("StorageClass", "data::StorageClass", 2, "Transient Volatile Restorable Permanent", "Transient")
    UserPermissions = S("UserPermissions", "data::UserPermissions", [F("read", B()), F("write", B()), F("executable", B())])
    FilePermissions = S("FilePermissions", "data::FilePermissions", [F("encrypted", B()), F("executable", B()), F("user", UserPermissions.use()), F("guest", UserPermissions.use())])
    DataFileProperties = S("DataFileProperties", "data::FileProperties", [F("enabled", B()), F("condition", ActionCondition.use()), Pad(2), F("storage_class", StorageClass.use())])
    FileHeader = S("FileHeader", "data::FileHeader", [F("permissions", FilePermissions.use()), F("properties", DataFileProperties.use()), F("alp_command_file_id", U8()), F("interface_file_id", U8()), F("file_size", U32()), F("allocated_size", U32())])
    # session
    RetryMode = E("RetryMode", "session::RetryMode", 3, "No OneshotRetry FifoFast FifoSlow SingleFast SingleSlow OneshotSticky Rfu", "No")
    ResponseMode = E("ResponseMode", "session::ResponseMode", 3, "No All Any NoRepeat:4 OnError:5 Preferred:6", "No")
    QoS = S("QoS", "session::QoS", [F("stop_on_error", B()), F("record", B()), F("retry_mode", RetryMode.use()), F("response_mode", ResponseMode.use())])
    InterfaceType = add(IdEnum("InterfaceType", "crate::session::InterfaceType", 8,
        [("Host", 0, None, "id"), ("Serial", 1, None, "id"), ("LoRaWanABP", 2, None, "id"), ("LoRaWanOTAA", 3, None, "id"), ("Dash7", 0xD7, None, "id"), ("Unknown", None, None, "unit_")], default="Host"))
    D7Status = S("Dash7InterfaceStatus", "session::Dash7InterfaceStatus", [F("channel", Channel.use()), F("rx_level", U8()), F("link_budget", U8()), F("target_rx_level", U8()), F("nls", B()), F("missed", B()), F("retry", B()), F("unicast", B()),
        Pad(4), F("fifo_token", U8()), F("sequence_number", U8()), F("response_timeout", VI), F("addressee", Addressee.use())], default=False)
    def lenarg(fr): return fr["length"]
    IT = InterfaceType.path
    InterfaceStatus = add(CtxEnum("InterfaceStatus", "crate::session::InterfaceStatus", [("interface_id", IT), ("length", "u32")], "(InterfaceType,u32)",
        [("Host", IT + "::Host", nm("Host"), None), ("Serial", IT + "::Serial", nm("Serial"), None), ("Dash7", IT + "::Dash7", nm("Dash7"), D7Status.use()), ("Other", IT + "::Unknown", nm("Unknown"), VecL("{length} as nat", lenarg))], default="Host"))
    LpIS = add((Bare if v00 else Lp)("LpInterfaceStatus", InterfaceStatus, [("it", IT)], "it", lambda x: x))
    # files
    M = "file::"
    fid_vs = [("UId", 0), ("FactorySettings", 1), ("FirmwareVersion", 2), ("DeviceCapacity", 3), ("DeviceStatus", 4), ("EngineeringMode", 5), ("VId", 6), ("PhyConfig", 8), ("PhyStatus", 9), ("DllConfig", 10), ("DllStatus", 11),
        ("NetworkRouting", 12), ("NetworkSecurity", 13), ("NetworkSecurityKey", 14), ("NetworkSsr", 15), ("NetworkStatus", 16), ("TrlStatus", 17), ("SelConfig", 18), ("FofStatus", 19), ("LocationData", 0x17), ("RootKey", 0x18), ("UserKey", 0x19), ("SensorDescription", 0x1B), ("Rtc", 0x1C)]
    fid_vs += [("AccessProfile%02d" % i, 0x20 + i) for i in range(15)]
    FileId = add(IdEnum("FileId", "crate::file::FileId", 8, [(n, i, None, "id") for n, i in fid_vs] + [("Rfu", [7, 0x14, 0x15, 0x16], None, "unit_"), ("D7AalpRfu", [0x1D, 0x1E, 0x1F], None, "unit_"), ("Other", None, None, "unit_")]))
    u32s = lambda ns: [F(n, U32()) for n in ns.split()]
    u8s = lambda ns: [F(n, U8()) for n in ns.split()]
    FactorySettings = S("FactorySettings", M + "factory_settings::FactorySettings", [F("gain", I8L())] + u32s("rx_bw_low_rate rx_bw_normal_rate rx_bw_high_rate bitrate_lo_rate fdev_lo_rate bitrate_normal_rate fdev_normal_rate bitrate_hi_rate fdev_hi_rate")
        + u8s("preamble_size_lo_rate preamble_size_normal_rate preamble_size_hi_rate preamble_detector_size_lo_rate preamble_detector_size_normal_rate preamble_detector_size_hi_rate preamble_tol_lo_rate preamble_tol_normal_rate preamble_tol_hi_rate rssi_smoothing rssi_offset")
        + u32s("lora_bw") + u8s("lora_sf gaussian") + [F("paramp", U16())], default=False)
    FirmwareVersion = S("FirmwareVersion", M + "firmware_version::FirmwareVersion", u8s("major minor") + [F("application_name", StrL(6)), F("git_sha1", StrL(7))], default=False)
    EMM = E("EngineeringModeMethod", M + "engineering_mode::EngineeringModeMethod", 8, "Off ContTx TransientTx PerRx PerTx")
    EngineeringMode = S("EngineeringMode", M + "engineering_mode::EngineeringMode", [F("mode", EMM.use())] + u8s("flags timeout") + [F("channel", Channel.use()), F("eirp", I8L())], default=False)
    def ps_gen(R, f): f["channel_status_list_length"] = len(f["channel_status"])
    PhyStatus = S("PhyStatus", M + "phy_status::PhyStatus", u32s("up_time rx_time tx_time") + [F("tx_duty_cycle", U16()),
        F("channel_status_list_length", U8(), upd=("self.channel_status@.len() < 256", "self.channel_status@.len() as u8"), gen=lambda R, f: R.choice([0, 1, 2, 5, 255])),
        F("channel_status", SeqL(ChannelStatus, count="({channel_status_list_length} as nat)", py=lambda f: f["channel_status_list_length"]))], default=False)
    DllConfig = S("DllConfig", M + "dll_config::DllConfig", u8s("ac") + [Pad(16)] + u8s("lq_filter nf_ctrl rx_nf_method_parameter tx_nf_method_parameter"), default=False)
    DllStatus = S("DllStatus", M + "dll_status::DllStatus", u8s("last_rx_packet_level last_rx_packet_link_budget noise_floor") + [F("channel_header", ChannelHeader.use()), F("channel_index", U16()), F("scan_timeout_ratio", U16())] + u32s("scan_count scan_timeout_count"), default=False)
    SecurityKey = S("SecurityKey", M + "security_key::SecurityKey", [F("key", UIntLE(128))], default=False)
    FileAP = S("FileAccessProfile", M + "access_profile::AccessProfile", [F("profile", LinkAccessProfile.use())], default=False, gens="<const S: u8>", gargs="<S>")
    FI = FileId.path
    def ap(i): return FileAP.use(targs=f"::<{i}>", rust=f"{FileAP.path}<{i}>")
    at = lambda n: Address.use(f"{AddressType.path}::{n}", py=lambda f: (Rec(n, "u", [], "AddressType"),))
    farms = [("AccessProfile%02d" % i, FI + "::AccessProfile%02d" % i, nm("AccessProfile%02d" % i), ap(i)) for i in range(15)]
    for v, i, c in (("UId", "UId", at("UId")), ("FactorySettings", "FactorySettings", FactorySettings.use()), ("FirmwareVersion", "FirmwareVersion", FirmwareVersion.use()), ("EngineeringMode", "EngineeringMode", EngineeringMode.use()),
                    ("VId", "VId", at("VId")), ("PhyStatus", "PhyStatus", PhyStatus.use()), ("DllConfig", "DllConfig", DllConfig.use()), ("DllStatus", "DllStatus", DllStatus.use()), ("NwlSecurityKey", "NetworkSecurityKey", SecurityKey.use())):
        farms.append((v, f"{FI}::{i}", nm(i), c))
    farms.append(("Other", None, None, VecL("{length} as nat", lenarg)))
    File = add(CtxEnum("File", "crate::file::File", [("file_id", FI), ("length", "u32")], "(FileId,u32)", farms, default="Other", defpay="mkvec(Seq::empty())", ctxd=f"{FI}::Other, 0"))
    def fidof(x):
        n, i, c, k = FileId.find(x)
        return Rec(n, "u", [], "FileId")
    LpFile = add(Lp("LpFile", File, [("fid", "u8")], "v_FileId(fid)", fidof))
    # operations
    Op("Nop", "Nop", [hd, opc])
    Op("OpFileId", "FileId", [hd, opc, F("file_id", U8())])
    Op("FileData", "FileData", [hd, opc, F("offset", off), F("data", LpFile.use("{offset}.file_id", py=lambda f: (f["offset"].file_id,)))])
    Op("OpFileProperties", "FileProperties", [hd, opc, F("file_id", U8()), F("file_header", FileHeader.use())])
    Op("ReadFileData", "ReadFileData", [hd, opc, F("offset", off), F("length", LEN)])
    # queries
    Q = "app::query::"
    ACT = E("ArithmeticComparisonType", Q + "ArithmeticComparisonType", 3, "Inequal Equal LessThan LessThanOrEqual GreaterThan GreaterThanOrEqual", "Inequal")
    AQP = S("ArithmeticQueryParams", Q + "ArithmeticQueryParams", [F("signed", B()), F("comparison_type", ACT.use())])
    RCT = E("RangeComparisonType", Q + "RangeComparisonType", 3, "NotInRange InRange", "NotInRange")
    RQP = S("RangeQueryParams", Q + "RangeQueryParams", [F("signed", B()), F("comparison_type", RCT.use())])
    NonVoid = S("NonVoid", Q + "NonVoid", [Pad(5), F("length", LEN), F("file", off)])
    mp = F("mask_present", B(), upd="self.mask@.len() > 0")
    def ml(f): return f["length"][0] if f["mask_present"] else 0
    mask = F("mask", CVecL("{mask_present}", "{length}.0 as nat", ml))
    value = F("value", VecL("{length}.0 as nat", lambda f: f["length"][0]))
    def length(upd=None): return F("length", LEN, upd=f"crate::app::operation::length::Length(crate::sp::clen(self.{upd}@.len()))" if upd else None, gen=small_len)
    CZ = S("ComparisonWithZero", Q + "ComparisonWithZero", [mp, F("params", AQP.use()), length("mask"), mask, F("file", off)])
    CV = S("ComparisonWithValue", Q + "ComparisonWithValue", [mp, F("params", AQP.use()), length("value"), mask, value, F("file", off)])
    CO = S("ComparisonWithOtherFile", Q + "ComparisonWithOtherFile", [mp, F("params", AQP.use()), length(), mask, F("file1", off), F("file2", off)])
    BR = S("BitmapRangeComparison", Q + "BitmapRangeComparison", [mp, F("params", RQP.use()), length(), F("start", LEN), F("stop", LEN), F("mask", VecL("{length}.0 as nat", lambda f: f["length"][0])), F("file", off)])
    ST = S("StringTokenSearch", Q + "StringTokenSearch", [mp, Pad(1), F("max_errors", U8(3)), length("value"), mask, value, F("file", off)])
    Query = add(IdEnum("Query", "crate::" + Q + "Query", 3, [("NonVoid", 0, NonVoid.use(), "id"), ("ComparisonWithZero", 1, CZ.use(), "id"), ("ComparisonWithValue", 2, CV.use(), "id"), ("ComparisonWithOtherFile", 3, CO.use(), "id"), ("BitmapRangeComparison", 4, BR.use(), "id"), ("StringTokenSearch", 7, ST.use(), "id")],
        default="NonVoid", defpay=f"<{NonVoid.path} as Default>::dflt()"))
    Op("ActionQuery", "ActionQuery", [hd, opc, F("query", Query.use())])
    Op("PermissionRequest", "PermissionRequest", [hd, opc, F("level", PermissionLevel.use()), F("permission", Permission.use())])
    Op("CopyFile", "CopyFile", [hd, opc, F("src_file_id", U8()), F("dst_file_id", U8())])
    # statuses
    StatusType = E("StatusType", OP + "StatusType", 2, "Action Interface InterfaceFinal", "Action")
    ISO = S("InterfaceStatusOperation", OP + "InterfaceStatusOperation", [F("interface_type", InterfaceType.use()), F("status", LpIS.use("{interface_type}", py=ctxof("interface_type")))])
    sarms = [("Action", StatusType.path + "::Action", nm("Action"), ActionStatus.use()), ("Interface", StatusType.path + "::Interface", nm("Interface"), ISO.use())]
    if wz:
        SM = "session::interface_final::"
        FC = E("InterfaceFinalStatusCode", SM + "InterfaceFinalStatusCode", 8, "No:0 " + " ".join(f"{n}:{255 - i}" for i, n in enumerate("Busy BadParam DutyCycle CcaTo NlsKey TxUdf RxOvf RxCrc Abort NoAck RxTo NotSupportedBand NotSupportedChannel NotSupportedModulation VoidChannelList NotSupportedLen ParamOvf VidWoNls TxSched RxSched BufferOvf NotSupportedMode".split())), disc=True)
        ictx = [("interface_id", "u8"), ("length", "u32")]
        def final(name, c): return add(CtxEnum(name, "crate::" + SM + name, ictx, "(u8,u32)", [("Dash7", "0xD7u8", lambda x: x == 0xD7, c), ("Other", None, None, VecL("{length} as nat", lenarg))]))
        IFS = final("InterfaceFinalStatus", FC.use())
        DTX = S("Dash7InterfaceTxStatus", SM + "Dash7InterfaceTxStatus", [F("channel", Channel.use()), F("target_rx_level", I8L()), F("error", FC.use()), Pad(24), F("lts", UIntLE(32)), F("addressee", Addressee.use())], default=False)
        ITS = final("InterfaceTxStatus", DTX.use())
        LpF = add(Lp("LpFinal", IFS, [("iid", "u8")], "iid", lambda x: x))
        LpT = add(Lp("LpTx", ITS, [("iid", "u8")], "iid", lambda x: x))
        AM = "app::interface_final::"
        IFO = S("InterfaceFinalStatusOperation", AM + "InterfaceFinalStatusOperation", [F("interface_id", U8()), F("status", LpF.use("{interface_id}", py=ctxof("interface_id")))], default=False)
        ITO = S("InterfaceTxStatusOperation", AM + "InterfaceTxStatusOperation", [F("interface_id", U8()), F("status", LpT.use("{interface_id}", py=ctxof("interface_id")))], default=False)
        sarms.append(("InterfaceFinal", StatusType.path + "::InterfaceFinal", nm("InterfaceFinal"), IFO.use()))
        TST = E("TxStatusType", AM + "TxStatusType", 2, "Interface:1")
        TxS = add(CtxEnum("TxStatus", "crate::" + AM + "TxStatus", [("status_type", TST.path)], "TxStatusType", [("Interface", TST.path + "::Interface", nm("Interface"), ITO.use())]))
        Op("TxStatusOperation", "TxStatusOperation", [F("status_type", TST.use(), upd="self.status.id_spec()->0"), opc, F("status", TxS.use("{status_type}", py=ctxof("status_type")))], mod=AM, default=False)
    Status = add(CtxEnum("Status", "crate::" + OP + "Status", [("status_type", StatusType.path)], "StatusType", sarms, default="Action", defpay=f"<{ActionStatus.path} as Default>::dflt()", ctxd=f"{StatusType.path}::Action"))
    sgen = (lambda R, f: StatusType.mk(R.choice(["Action", "Interface"] + (["InterfaceFinal"] if wz else [])), None))
    Op("StatusOperand", "StatusOperand", [F("status_type", StatusType.use(), gen=sgen), opc, F("status", Status.use("{status_type}", py=ctxof("status_type")))])
    RTH = S("ResponseTagHeader", OP + "ResponseTagHeader", [F("end_of_packet", B()), F("error", B())])
    Op("ResponseTag", "ResponseTag", [F("header", RTH.use()), opc, F("id", U8())])
    ChunkStep = E("ChunkStep", OP + "ChunkStep", 2, "Continue Start End StartEnd", "Continue")
    Op("Chunk", "Chunk", [F("step", ChunkStep.use()), opc])
    LogicOp = E("LogicOp", OP + "LogicOp", 2, "Or Xor Nor Nand", "Or")
    Op("Logic", "Logic", [F("logic", LogicOp.use()), opc])
    # interfaces
    I = "app::interface::"
    D7C = S("Dash7InterfaceConfiguration", I + "Dash7InterfaceConfiguration", [F("qos", QoS.use()), F("dormant_session_timeout", VI)] + ([] if sub else [F("execution_delay_timeout", VI)]) + [F("addressee", Addressee.use())])
    LW = S("LoRaWANInterfaceConfiguration", I + "LoRaWANInterfaceConfiguration", [Pad(5), F("adr_enabled", B()), F("request_ack", B()), Pad(1), F("application_port", U8()), F("data_rate", U8())])
    def key(n, k): return F(n, VecL(str(k), lambda f: k, k))
    OTAA = S("LoRaWANOTAAInterfaceConfiguration", I + "LoRaWANOTAAInterfaceConfiguration", [F("base", LW.use()), key("device_eui", 8), key("app_eui", 8), key("app_key", 16)])
    ABP = S("LoRaWANABPInterfaceConfiguration", I + "LoRaWANABPInterfaceConfiguration", [F("base", LW.use()), key("network_session_key", 16), key("app_session_key", 16), F("device_address", UIntLE(32)), F("network_id", UIntLE(32))])
    IC = add(IdEnum("InterfaceConfiguration", "crate::" + I + "InterfaceConfiguration", 8, [("Host", 0, None, "id"), ("Serial", 1, None, "id"), ("LoRaWanABP", 2, ABP.use(), "id"), ("LoRaWanOTAA", 3, OTAA.use(), "id"), ("Dash7", 0xD7, D7C.use(), "id"), ("Unknown", None, U8(), "pay_")], default="Host"))
    II = add(IdEnum("IndirectInterface", "crate::" + I + "IndirectInterface", 8, [("Host", 0, None, "id"), ("Serial", 1, None, "id"), ("Dash7", 0xD7, Addressee.use(), "id"), ("Unknown", None, U8(), "pay_")], default="Host"))
    FH = S("ForwardHeader", OP + "ForwardHeader", [Pad(1), F("response", B())])
    Op("Forward", "Forward", [F("header", FH.use()), opc, F("configuration", IC.use())])
    IFH = S("IndirectForwardHeader", OP + "IndirectForwardHeader", [F("overloaded", B()), F("response", B())])
    Op("IndirectForward", "IndirectForward", [F("header", IFH.use(), upd=f"{IFH.path} {{ overloaded: self.configuration is Some, response: self.header.response }}"), opc,
        F("configuration", OptL("{header}.overloaded", lambda f: f["header"].overloaded, II.use()))])
    RQH = S("RequestTagHeader", OP + "RequestTagHeader", [F("end_of_packet", B()), Pad(1)])
    Op("RequestTag", "RequestTag", [F("header", RQH.use()), opc, F("id", U8())])
    Op("Extension", "Extension", [hd, opc])
    # actions, commands
    acts = [(v, k, T[t]) for v, k, t in OPC if t in T]
    Action = add(ActionTy(acts, OpCode))
    Command = add(CommandTy(Action))
    # frames
    TC = S("TransportControl", "transport::Control", [F(n, B()) for n in "is_dialog_start has_listen_timeout has_execution_delay_timeout is_ack_requested is_ack_not_void is_ack_record_requested has_agc".split()])
    AT = S("AckTemplate", "transport::AckTemplate", [F("transaction_id_start", U8()), F("transaction_id_stop", U8())])
    def opt(c, py, inner): return OptL(c, py, inner)
    TF = S("TransportFrame", "transport::Frame", [F("control", TC.use()), F("dialog_id", U8()), F("transaction_id", U8()),
        F("target_rx_level_i", opt("{control}.has_agc", lambda f: f["control"].has_agc, U8())),
        F("listen_timeout", opt("{control}.has_listen_timeout", lambda f: f["control"].has_listen_timeout, VI)),
        F("execution_delay_timeout", opt("{control}.has_execution_delay_timeout", lambda f: f["control"].has_execution_delay_timeout, VI)),
        F("congestion_timeout", opt("({control}.is_ack_requested && {control}.is_dialog_start)", lambda f: f["control"].is_ack_requested and f["control"].is_dialog_start, VI)),
        F("ack_template", opt("{control}.is_ack_not_void", lambda f: f["control"].is_ack_not_void, AT.use())),
        F("command", Command.use("{command_length}", py=ctxof("command_length")))],
        ctx=[("command_length", "u32")], keyctx="u32", tail=True, ctxd="0")
    TF.tailx = ("", "command_length", "v.command")
    NC = S("NetworkControl", "network::network::Control", [F("has_no_origin_access_id", B()), F("has_hopping", B()), F("origin_address_type", AddressType.use()), Pad(1), F("nls_method", NlsMethod.use())])
    HC = S("HoppingControl", "network::network::HoppingControl", [Pad(1), F("hop_counter", B()), F("destination_address_type", AddressType.use()), Pad(4)])
    NF = S("NetworkFrame", "network::network::Frame", [F("control", NC.use()), F("hopping_control", opt("{control}.has_hopping", lambda f: f["control"].has_hopping, HC.use())), F("origin_access_class", AccessClass.use()),
        F("origin_access_adress", Address.use("{control}.origin_address_type", py=lambda f: (f["control"].origin_address_type,))), F("frame", TF.use("{command_length}", py=ctxof("command_length")))],
        ctx=[("command_length", "u32")], keyctx="u32", tail=True, ctxd="0")
    NF.tailx = ("", "command_length", "v.frame.command")
    BFC = S("BackgroundFrameControl", "link::frame::BackgroundFrameControl", [F("address_type", AddressType.use()), F("tag_id", U8(6))])
    S("BackgroundFrame", "link::frame::BackgroundFrame", [F("subnet", U8()), F("control", BFC.use()), F("payload", UIntLE(16)), F("crc16", UIntLE(16))])
    FFC = S("ForegroundFrameControl", "link::frame::ForegroundFrameControl", [F("address_type", AddressType.use()), F("eirp_index", U8(6))])
    FF = S("ForegroundFrame", "link::frame::ForegroundFrame", [F("length", LEN), F("subnet", U8()), F("control", FFC.use()), F("target_address", Address.use("{control}.address_type", py=lambda f: (f["control"].address_type,))),
        F("frame", NF.use("{length}.0", py=lambda f: (f["length"][0],))), F("crc16", UIntLE(16))], tail=True)
    FF.tailx = (" - 16", "v.length.0", "v.frame.frame.command")
    return T

class ActionTy(Ty):
    def __init__(s, acts, OpCode):
        s.setup("Action", "crate::app::action::Action")
        s.acts, s.OpCode, s.bits, s.bm, s.mx = acts, OpCode, None, 0, None
        s.exc = any(t.exc for _, _, t in acts)
        s.ral = 0
        for _, _, t in acts: assert t.ral in (-1, 0), t.name
    def op(s, k): return f"{s.OpCode.path}({k})"
    def d_body(s):
        out = "".join(f"if c.0 == {k} {{ match d_{t.name}(s, p) {{ None => None, Some((x, r)) => Some(({s.path}::{v}(x), r)) }} }} else " for v, k, t in s.acts)
        return f"match d_pad(s, p, 2) {{ None => None, Some((_, p2)) => match d_OpCode(s, p2) {{ None => None, Some((c, q)) => {out} {{ None }} }} }}"
    def w_body(s): return "match v { " + "".join(f"{s.path}::{v}(x) => w_{t.name}(o, x, {s.op(k)}), " for v, k, t in s.acts) + "}"
    def ok_body(s): return "match v { " + "".join(f"{s.path}::{v}(x) => ok_{t.name}(x, {s.op(k)}), " for v, k, t in s.acts) + "}"
    def exc_body(s): return "match v { " + "".join(f"{s.path}::{v}(x) => exc_{t.name}(x), " for v, k, t in s.acts if t.exc) + "_ => false }"
    def arms(s, fn): return "match v { " + " ".join(f"{s.path}::{v}(x) => {{ {fn(k, t)} }}" for v, k, t in s.acts) + " }"
    def mn_body(s): return s.arms(lambda k, t: f"mn_{t.name}(o, x, {s.op(k)});")
    def rt_body(s): return s.arms(lambda k, t: f"rt_{t.name}(o, x, {s.op(k)}, s); dl_{t.name}(s, o.len() as int, {s.op(k)}); l_prefix_len(w_{t.name}(o, x, {s.op(k)})->0, s); l_prefix_len(o, w_{t.name}(o, x, {s.op(k)})->0); dl_OpCode(s, (o.len() + 2) as int); ")
    def ap_body(s): return s.arms(lambda k, t: f"ap_{t.name}(z, o, x, {s.op(k)});")
    def dl_body(s):
        return "dl_pad(s, p, 2); dl_OpCode(s, p + 2); let c = (d_OpCode(s, p + 2)->0).0; " + " ".join(f"if c.0 == {k} {{ dl_{t.name}(s, p, {s.op(k)}); assert(c == {s.op(k)}); }}" for _, k, t in s.acts)
    def dl_more(s, D): return [f"pos(s, p) && {D} is Some ==> ({D}->0).1 >= p + 8"]
    def contracts(s, C):
        super().contracts(C)
    def ids(s, C):
        k = f"{s.mod}|DekuEnumExt<OpCode>|{s.tn}"
        C.impls[k] = f"open spec fn id_spec(&self) -> Option<{s.OpCode.path}> {{ match *self {{ " + "".join(f"{s.path}::{v}(_) => Some({s.op(k2)}), " for v, k2, _ in s.acts) + "} }"
        s.keys.append(k)
    def rpre(s, d=False): return "proof { crate::sp::dl_pad(old($0).s(), old($0).p(), 2); crate::sp::dl_OpCode(old($0).s(), old($0).p() + 2); }"
    def pd(s, b, p, a):
        c, _ = rd(b, p + 2, 6)
        if p + 8 > len(b): raise Bad("short")
        for v, k, t in s.acts:
            if k == c:
                x, q = t.pd(b, p, (Rec("OpCode", "t", [("0", k)], "OpCode"),))
                return Rec(v, "t", [("0", x)], "Action"), q
        raise Bad("opcode")
    def pe(s, o, v, a):
        k, t = next((k, t) for n, k, t in s.acts if n == v.name)
        return t.pe(o, v[0], (Rec("OpCode", "t", [("0", k)], "OpCode"),))
    def gen(s, R, a, only=None):
        v, k, t = R.choice([x for x in s.acts if x[0] != "IndirectForward" or only is None])
        return Rec(v, "t", [("0", t.gen(R, (Rec("OpCode", "t", [("0", k)], "OpCode"),)))], "Action")
    def pok(s, v, a):
        k, t = next((k, t) for n, k, t in s.acts if n == v.name)
        return t.pok(v[0], (Rec("OpCode", "t", [("0", k)], "OpCode"),))

class CommandTy(Ty):
    tail = True
    def __init__(s, A):
        s.setup("Command", "crate::app::command::Command")
        s.A, s.bits, s.bm, s.mx, s.exc, s.ral = A, None, 0, None, A.exc, 0
        s.ctx, s.keyctx = [("length", "u32")], "u32"
        s.tailx = ("", "length", "v")
    def emit(s):
        A, I = s.A.path, f"is IndirectForward"
        return f'''pub open spec fn d_Acts(s: Seq<bool>, p: int, length: u32, acc: Seq<{A}>) -> Option<(Seq<{A}>, int)> decreases s.len() - p {{
    if p >= s.len() || (length != 0 && p / 8 >= length) || (acc.len() > 0 && acc.last() {I}) {{ Some((acc, p)) }} else {{
        match d_Action(s, p) {{ None => None, Some((a, q)) => if p < q <= s.len() {{ d_Acts(s, q, length, acc.push(a)) }} else {{ None }} }} }}
}}
pub open spec fn w_Acts(o: Seq<bool>, v: Seq<{A}>) -> Option<Seq<bool>> decreases v.len() {{
    if v.len() == 0 {{ Some(o) }} else {{ match w_Acts(o, v.drop_last()) {{ None => None, Some(o1) => w_Action(o1, v.last()) }} }}
}}
pub open spec fn ok_Acts(v: Seq<{A}>) -> bool {{ forall|i: int| 0 <= i < v.len() ==> ok_Action(#[trigger] v[i]) && (i < v.len() - 1 ==> !(v[i] {I})) }}
pub open spec fn exc_Acts(v: Seq<{A}>) -> bool {{ exists|i: int| 0 <= i < v.len() && exc_Action(#[trigger] v[i]) }}
pub open spec fn fin_Command(s: Seq<bool>, e: int, length: u32, v: {s.path}) -> bool {{
    (length == 0 || e <= 8 * length) && (e >= s.len() || (length != 0 && e >= 8 * length) || (v.actions@.len() > 0 && v.actions@.last() {I}))
}}
pub proof fn mn_Acts(o: Seq<bool>, v: Seq<{A}>) ensures ok_Acts(v) ==> w_Acts(o, v) is Some, w_Acts(o, v) is Some ==> prefix(o, w_Acts(o, v)->0), ok_Acts(v) && w_Acts(o, v) is Some ==> ((w_Acts(o, v)->0).len() - o.len()) % 8 == 0 decreases v.len() {{
    if v.len() == 0 {{ l_prefix_refl(o); }} else {{ let o1 = w_Acts(o, v.drop_last())->0; mn_Acts(o, v.drop_last()); mn_Action(o1, v.last()); l_pt(o, o1, w_Acts(o, v)->0);
        if ok_Acts(v) {{ assert(ok_Action(v[v.len() - 1])); assert forall|i: int| 0 <= i < v.drop_last().len() implies ok_Action(#[trigger] v.drop_last()[i]) && (i < v.drop_last().len() - 1 ==> !(v.drop_last()[i] {I})) by {{ assert(ok_Action(v[i])); }} }} }}
}}
pub proof fn l_acts_take(o: Seq<bool>, v: Seq<{A}>, k: int) requires ok_Acts(v), 0 <= k <= v.len() ensures w_Acts(o, v.take(k)) is Some, w_Acts(o, v) is Some, prefix(w_Acts(o, v.take(k))->0, w_Acts(o, v)->0) decreases v.len() {{
    mn_Acts(o, v);
    if k == v.len() {{ assert(v.take(k) =~= v); l_prefix_refl(w_Acts(o, v)->0); }} else {{
        let w = v.drop_last();
        assert forall|i: int| 0 <= i < w.len() implies ok_Action(#[trigger] w[i]) && (i < w.len() - 1 ==> !(w[i] {I})) by {{ assert(ok_Action(v[i])); }}
        assert(w.take(k) =~= v.take(k)); l_acts_take(o, w, k); mn_Action(w_Acts(o, w)->0, v.last()); l_pt(w_Acts(o, v.take(k))->0, w_Acts(o, w)->0, w_Acts(o, v)->0); }}
}}
pub proof fn rt_Acts(o: Seq<bool>, v: Seq<{A}>, length: u32, s: Seq<bool>, k: int) requires ok_Acts(v), 0 <= k <= v.len(), prefix(w_Acts(o, v)->0, s), fin_Command(s, (w_Acts(o, v)->0).len() as int, length, {s.path} {{ actions: mkvec(v) }})
    ensures d_Acts(s, (w_Acts(o, v.take(k))->0).len() as int, length, v.take(k)) == Some((v, (w_Acts(o, v)->0).len() as int)) decreases v.len() - k {{
    l_acts_take(o, v, k); let o1 = w_Acts(o, v.take(k))->0; l_prefix_len(w_Acts(o, v)->0, s); l_prefix_len(o1, w_Acts(o, v)->0);
    if k == v.len() {{ assert(v.take(k) =~= v); reveal_with_fuel(d_Acts, 2); }} else {{
        l_acts_take(o, v, k + 1); assert(v.take(k + 1).drop_last() =~= v.take(k)); assert(v.take(k + 1).last() == v[k]); let o2 = w_Acts(o, v.take(k + 1))->0; assert(w_Action(o1, v[k]) == Some(o2));
        l_prefix_len(o2, w_Acts(o, v)->0); l_pt(o2, w_Acts(o, v)->0, s); assert(ok_Action(v[k])); rt_Action(o1, v[k], s); dl_Action(s, o1.len() as int); assert(v.take(k).push(v[k]) =~= v.take(k + 1));
        if k > 0 {{ assert(v.take(k).last() == v[k - 1]); assert(ok_Action(v[k - 1])); }}
        rt_Acts(o, v, length, s, k + 1); reveal_with_fuel(d_Acts, 2); }}
}}
pub proof fn ap_Acts(z: Seq<bool>, o: Seq<bool>, v: Seq<{A}>) ensures w_Acts(o, v) is Some <==> w_Acts(z + o, v) is Some, w_Acts(o, v) is Some ==> w_Acts(z + o, v) == Some(z + w_Acts(o, v)->0) decreases v.len() {{
    if v.len() > 0 {{ ap_Acts(z, o, v.drop_last()); ap_Action(z, w_Acts(o, v.drop_last())->0, v.last()); }}
}}
pub open spec fn goodacc(v: Seq<{A}>) -> bool {{ exc_Acts(v) || ok_Acts(v) }}
pub proof fn dl_Acts(s: Seq<bool>, p: int, length: u32, acc: Seq<{A}>) requires pos(s, p), goodacc(acc) ensures d_Acts(s, p, length, acc) is Some ==> ({{ let d = d_Acts(s, p, length, acc)->0; pos(s, d.1) && d.1 >= p && (d.1 - p) % 8 == 0 && goodacc(d.0) }}) decreases s.len() - p {{
    if !(p >= s.len() || (length != 0 && p / 8 >= length) || (acc.len() > 0 && acc.last() {I})) {{
        dl_Action(s, p);
        if let Some((a, q)) = d_Action(s, p) {{
            let w = acc.push(a);
            if exc_Acts(acc) {{ let i = choose|i: int| 0 <= i < acc.len() && exc_Action(#[trigger] acc[i]); assert(exc_Action(w[i])); }}
            else if exc_Action(a) {{ assert(exc_Action(w[acc.len() as int])); }}
            else {{ assert forall|i: int| 0 <= i < w.len() implies ok_Action(#[trigger] w[i]) && (i < w.len() - 1 ==> !(w[i] {I})) by {{ if i < acc.len() {{ assert(ok_Action(acc[i])); }} }} }}
            if q > p {{ dl_Acts(s, q, length, w); }}
        }}
    }}
}}
pub proof fn l_acts_none(o: Seq<bool>, s: Seq<{A}>, j: int) requires 0 <= j <= s.len(), w_Acts(o, s.take(j)) is None ensures w_Acts(o, s) is None decreases s.len() - j {{
    broadcast use b_take_drop, b_take_last, b_take_all;
    if j < s.len() {{ assert(s.take(j + 1).drop_last() == s.take(j)); l_acts_none(o, s, j + 1); }}
}}
pub proof fn l_acts_fail(o: Seq<bool>, s: Seq<{A}>) ensures forall|j: int| #![trigger s.take(j)] 0 <= j < s.len() ==> match w_Acts(o, s.take(j)) {{ Some(o1) => w_Action(o1, s[j]) is None ==> w_Acts(o, s) is None, None => true }} {{
    assert forall|j: int| #![trigger s.take(j)] 0 <= j < s.len() implies match w_Acts(o, s.take(j)) {{ Some(o1) => w_Action(o1, s[j]) is None ==> w_Acts(o, s) is None, None => true }} by {{
        broadcast use b_take_drop, b_take_last;
        if let Some(o1) = w_Acts(o, s.take(j)) {{ if w_Action(o1, s[j]) is None {{ assert(s.take(j + 1).drop_last() == s.take(j)); assert(s.take(j + 1).last() == s[j]); l_acts_none(o, s, j + 1); }} }}
    }}
}}
pub proof fn dl_Action_all(s: Seq<bool>) ensures forall|q: int| #![trigger d_Action(s, q)] pos(s, q) && d_Action(s, q) is Some ==> pos(s, (d_Action(s, q)->0).1) && (d_Action(s, q)->0).1 >= q + 8 && ((d_Action(s, q)->0).1 - q) % 8 == 0 {{
    assert forall|q: int| #![trigger d_Action(s, q)] pos(s, q) && d_Action(s, q) is Some implies pos(s, (d_Action(s, q)->0).1) && (d_Action(s, q)->0).1 >= q + 8 && ((d_Action(s, q)->0).1 - q) % 8 == 0 by {{ dl_Action(s, q); }}
}}
''' + super().emit()
    def d_body(s): return f"match d_Acts(s, p, length, Seq::empty()) {{ None => None, Some((a, q)) => Some(({s.path} {{ actions: mkvec(a) }}, q)) }}"
    def w_body(s): return "w_Acts(o, v.actions@)"
    def ok_body(s): return "ok_Acts(v.actions@)"
    def exc_body(s): return "exc_Acts(v.actions@)"
    def mn_body(s): return "mn_Acts(o, v.actions@);"
    def rt_body(s): return "assert(v.actions@.take(0) =~= Seq::empty()); rt_Acts(o, v.actions@, length, s, 0);"
    def ap_body(s): return "ap_Acts(z, o, v.actions@);"
    def dl_body(s): return "if pos(s, p) { dl_Acts(s, p, length, Seq::empty()); }"
    def pd(s, b, p, a):
        n, acts = a[0], []
        while (n == 0 or p // 8 < n) and p < len(b):
            if acts and acts[-1].name == "IndirectForward": break
            x, p = s.A.pd(b, p, ())
            acts.append(x)
        return Rec("Command", "s", [("actions", acts)], "Command"), p
    def pe(s, o, v, a):
        for x in v.actions: o = s.A.pe(o, x, ())
        return o
    def gen(s, R, a):
        n = R.choice([0, 1, 1, 2, 2, 3, 5])
        acts = [s.A.gen(R, (), only=1) for _ in range(n)]
        if R.random() < 0.2:
            v, k, t = next(x for x in s.A.acts if x[0] == "IndirectForward")
            acts.append(Rec(v, "t", [("0", t.gen(R, (Rec("OpCode", "t", [("0", k)], "OpCode"),)))], "Action"))
        return Rec("Command", "s", [("actions", acts)], "Command")
    def pok(s, v, a): return all(s.A.pok(x, ()) for x in v.actions) and all(x.name != "IndirectForward" for x in v.actions[:-1])
