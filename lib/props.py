"""Which contracts decide which property. roots: types; deep: take everything the roots are made of;
kinds: R decoders, W encoders, C byte-level entry points, I identifiers, U update, H hand-written functions"""
OPS = "Nop OpFileId FileData OpFileProperties ReadFileData ActionQuery PermissionRequest CopyFile StatusOperand ResponseTag Chunk Logic Forward IndirectForward RequestTag Extension".split()
OPH = "ActionHeader ForwardHeader IndirectForwardHeader RequestTagHeader ResponseTagHeader ChunkStep LogicOp StatusType ActionStatus".split()
WZ = "TxStatusOperation InterfaceFinalStatusOperation InterfaceTxStatusOperation".split()
P = {
    "P01": dict(roots=["Action"], deep=True, kinds="RWCIUH"),
    "P02": dict(roots=["Command"], deep=True, kinds="RWCH"),
    "P03": dict(roots=["Action", "OpCode"] + OPS + OPH + WZ, deep=False, kinds="RWI"),
    "P04": dict(roots=["*"], deep=True, kinds="RC"),
    "P05": dict(roots=["*"], deep=True, kinds="C", extra=r"::(from_bytes|from_reader|to_bytes|pad_rest|at_end)$"),
    "P06": dict(roots=["Length"], deep=True, kinds="RWCIUH"),
    "P07": dict(roots=["VarInt"], deep=True, kinds="RWCIUH"),
    "P08": dict(roots=["Query", "ActionQuery"], deep=True, kinds="RWCIUH"),
    "P09": dict(roots=["InterfaceConfiguration", "Addressee", "QoS", "IndirectInterface", "Forward", "IndirectForward"], deep=True, kinds="RWCIUH"),
    "P10": dict(roots=["InterfaceStatus", "InterfaceStatusOperation", "LpInterfaceStatus", "Status", "StatusOperand", "ActionStatus", "StatusCode"] + WZ + ["LpFinal", "LpTx", "InterfaceFinalStatus", "InterfaceTxStatus"], deep=True, kinds="RWCIUH"),
    "P11": dict(roots=["File", "FileHeader", "OpFileProperties", "LpFile", "FileId"], deep=True, kinds="RWCIUH"),
    "P12": dict(roots=["FileData", "InterfaceStatusOperation", "LpFile", "LpInterfaceStatus", "LpFinal", "LpTx", "InterfaceFinalStatusOperation", "InterfaceTxStatusOperation", "InterfaceFinalStatus", "InterfaceTxStatus", "Length", "ComparisonWithZero", "ComparisonWithValue", "ComparisonWithOtherFile", "BitmapRangeComparison", "StringTokenSearch", "PhyStatus", "Query", "Forward", "IndirectForward", "IndirectForwardHeader", "NetworkFrame", "BackgroundFrame", "TransportFrame"], deep=False, kinds="RWUH", all="U"),
    "P13": dict(roots=["Command", "RequestTag", "ResponseTag", "RequestTagHeader", "ResponseTagHeader"], deep=False, kinds="H", also=["RequestTag", "ResponseTag", "RequestTagHeader", "ResponseTagHeader"]),
    "P14": dict(roots=["@enum", "StatusCode"], deep=False, kinds="RWCIUH"),
    "P15": dict(roots=["TransportFrame", "NetworkFrame", "BackgroundFrame", "ForegroundFrame", "LinkAccessProfile"], deep=True, stop=["Command"], kinds="RWCIUH"),
    "P16": dict(roots=["@arr", "FactorySettings", "FirmwareVersion", "FileAccessProfile", "LinkAccessProfile", "SubBand", "SubProfile", "SecurityKey", "Permission", "LoRaWANOTAAInterfaceConfiguration", "LoRaWANABPInterfaceConfiguration"], deep=False, kinds="RWCUH"),
    "P17": dict(roots=["*"], deep=True, kinds="HI"),
}

def kind_of(k):
    if "|DekuReader<" in k: return "R"
    if "|DekuWriter<" in k: return "W"
    if "|DekuUpdate|" in k: return "U"
    if "|DekuEnumExt<" in k: return "I"
    if "|TryFrom<&[u8]>|" in k or "|DekuContainerRead|" in k or "|DekuContainerWrite|" in k or k.split("::")[0].endswith("|Vec<u8>"): return "C"
    return "H"
