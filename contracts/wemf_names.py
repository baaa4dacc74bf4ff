"""Names of the values of Windows metafiles, by value."""


EMF_RECORDS = {
    0x1: "EMR_HEADER", 0x2: "EMR_POLYBEZIER", 0x3: "EMR_POLYGON", 0x4: "EMR_POLYLINE",
    0x5: "EMR_POLYBEZIERTO", 0x6: "EMR_POLYLINETO", 0x7: "EMR_POLYPOLYLINE", 0x8:
    "EMR_POLYPOLYGON", 0x9: "EMR_SETWINDOWEXTEX", 0xa: "EMR_SETWINDOWORGEX", 0xb:
    "EMR_SETVIEWPORTEXTEX", 0xc: "EMR_SETVIEWPORTORGEX", 0xd: "EMR_SETBRUSHORGEX", 0xe:
    "EMR_EOF", 0xf: "EMR_SETPIXELV", 0x10: "EMR_SETMAPPERFLAGS", 0x11: "EMR_SETMAPMODE",
    0x12: "EMR_SETBKMODE", 0x13: "EMR_SETPOLYFILLMODE", 0x14: "EMR_SETROP2", 0x15:
    "EMR_SETSTRETCHBLTMODE", 0x16: "EMR_SETTEXTALIGN", 0x17: "EMR_SETCOLORADJUSTMENT",
    0x18: "EMR_SETTEXTCOLOR", 0x19: "EMR_SETBKCOLOR", 0x1a: "EMR_OFFSETCLIPRGN", 0x1b:
    "EMR_MOVETOEX", 0x1c: "EMR_SETMETARGN", 0x1d: "EMR_EXCLUDECLIPRECT", 0x1e:
    "EMR_INTERSECTCLIPRECT", 0x1f: "EMR_SCALEVIEWPORTEXTEX", 0x20:
    "EMR_SCALEWINDOWEXTEX", 0x21: "EMR_SAVEDC", 0x22: "EMR_RESTOREDC", 0x23:
    "EMR_SETWORLDTRANSFORM", 0x24: "EMR_MODIFYWORLDTRANSFORM", 0x25: "EMR_SELECTOBJECT",
    0x26: "EMR_CREATEPEN", 0x27: "EMR_CREATEBRUSHINDIRECT", 0x28: "EMR_DELETEOBJECT",
    0x29: "EMR_ANGLEARC", 0x2a: "EMR_ELLIPSE", 0x2b: "EMR_RECTANGLE", 0x2c:
    "EMR_ROUNDRECT", 0x2d: "EMR_ARC", 0x2e: "EMR_CHORD", 0x2f: "EMR_PIE", 0x30:
    "EMR_SELECTPALETTE", 0x31: "EMR_CREATEPALETTE", 0x32: "EMR_SETPALETTEENTRIES", 0x33:
    "EMR_RESIZEPALETTE", 0x34: "EMR_REALIZEPALETTE", 0x35: "EMR_EXTFLOODFILL", 0x36:
    "EMR_LINETO", 0x37: "EMR_ARCTO", 0x38: "EMR_POLYDRAW", 0x39: "EMR_SETARCDIRECTION",
    0x3a: "EMR_SETMITERLIMIT", 0x3b: "EMR_BEGINPATH", 0x3c: "EMR_ENDPATH", 0x3d:
    "EMR_CLOSEFIGURE", 0x3e: "EMR_FILLPATH", 0x3f: "EMR_STROKEANDFILLPATH", 0x40:
    "EMR_STROKEPATH", 0x41: "EMR_FLATTENPATH", 0x42: "EMR_WIDENPATH", 0x43:
    "EMR_SELECTCLIPPATH", 0x44: "EMR_ABORTPATH", 0x46: "EMR_COMMENT", 0x47:
    "EMR_FILLRGN", 0x48: "EMR_FRAMERGN", 0x49: "EMR_INVERTRGN", 0x4a: "EMR_PAINTRGN",
    0x4b: "EMR_EXTSELECTCLIPRGN", 0x4c: "EMR_BITBLT", 0x4d: "EMR_STRETCHBLT", 0x4e:
    "EMR_MASKBLT", 0x4f: "EMR_PLGBLT", 0x50: "EMR_SETDIBITSTODEVICE", 0x51:
    "EMR_STRETCHDIBITS", 0x52: "EMR_EXTCREATEFONTINDIRECTW", 0x53: "EMR_EXTTEXTOUTA",
    0x54: "EMR_EXTTEXTOUTW", 0x55: "EMR_POLYBEZIER16", 0x56: "EMR_POLYGON16", 0x57:
    "EMR_POLYLINE16", 0x58: "EMR_POLYBEZIERTO16", 0x59: "EMR_POLYLINETO16", 0x5a:
    "EMR_POLYPOLYLINE16", 0x5b: "EMR_POLYPOLYGON16", 0x5c: "EMR_POLYDRAW16", 0x5d:
    "EMR_CREATEMONOBRUSH", 0x5e: "EMR_CREATEDIBPATTERNBRUSHPT", 0x5f:
    "EMR_EXTCREATEPEN", 0x60: "EMR_POLYTEXTOUTA", 0x61: "EMR_POLYTEXTOUTW", 0x62:
    "EMR_SETICMMODE", 0x63: "EMR_CREATECOLORSPACE", 0x64: "EMR_SETCOLORSPACE", 0x65:
    "EMR_DELETECOLORSPACE", 0x66: "EMR_GLSRECORD", 0x67: "EMR_GLSBOUNDEDRECORD", 0x68:
    "EMR_PIXELFORMAT", 0x69: "EMR_DRAWESCAPE", 0x6a: "EMR_EXTESCAPE", 0x6c:
    "EMR_SMALLTEXTOUT", 0x6d: "EMR_FORCEUFIMAPPING", 0x6e: "EMR_NAMEDESCAPE", 0x6f:
    "EMR_COLORCORRECTPALETTE", 0x70: "EMR_SETICMPROFILEA", 0x71: "EMR_SETICMPROFILEW",
    0x72: "EMR_ALPHABLEND", 0x73: "EMR_SETLAYOUT", 0x74: "EMR_TRANSPARENTBLT", 0x76:
    "EMR_GRADIENTFILL", 0x77: "EMR_SETLINKEDUFIS", 0x78: "EMR_SETTEXTJUSTIFICATION",
    0x79: "EMR_COLORMATCHTOTARGETW", 0x7a: "EMR_CREATECOLORSPACEW"}


STOCK_OBJECTS = {
    0x80000000: "WHITE_BRUSH", 0x80000001: "LTGRAY_BRUSH", 0x80000002: "GRAY_BRUSH",
    0x80000003: "DKGRAY_BRUSH", 0x80000004: "BLACK_BRUSH", 0x80000005: "NULL_BRUSH",
    0x80000006: "WHITE_PEN", 0x80000007: "BLACK_PEN", 0x80000008: "NULL_PEN",
    0x8000000a: "OEM_FIXED_FONT", 0x8000000b: "ANSI_FIXED_FONT", 0x8000000c:
    "ANSI_VAR_FONT", 0x8000000d: "SYSTEM_FONT", 0x8000000e: "DEVICE_DEFAULT_FONT",
    0x8000000f: "DEFAULT_PALETTE", 0x80000010: "SYSTEM_FIXED_FONT", 0x80000011:
    "DEFAULT_GUI_FONT", 0x80000012: "DC_BRUSH", 0x80000013: "DC_PEN"}


WMF_RECORDS = {
    0x0: "META_EOF", 0x1e: "META_SAVEDC", 0x35: "META_REALIZEPALETTE", 0x37:
    "META_SETPALENTRIES", 0xf7: "META_CREATEPALETTE", 0x102: "META_SETBKMODE", 0x103:
    "META_SETMAPMODE", 0x104: "META_SETROP2", 0x105: "META_SETRELABS", 0x106:
    "META_SETPOLYFILLMODE", 0x107: "META_SETSTRETCHBLTMODE", 0x108:
    "META_SETTEXTCHAREXTRA", 0x127: "META_RESTOREDC", 0x12a: "META_INVERTREGION", 0x12b:
    "META_PAINTREGION", 0x12c: "META_SELECTCLIPREGION", 0x12d: "META_SELECTOBJECT",
    0x12e: "META_SETTEXTALIGN", 0x139: "META_RESIZEPALETTE", 0x142:
    "META_DIBCREATEPATTERNBRUSH", 0x149: "META_SETLAYOUT", 0x1f0: "META_DELETEOBJECT",
    0x1f9: "META_CREATEPATTERNBRUSH", 0x201: "META_SETBKCOLOR", 0x209:
    "META_SETTEXTCOLOR", 0x20a: "META_SETTEXTJUSTIFICATION", 0x20b: "META_SETWINDOWORG",
    0x20c: "META_SETWINDOWEXT", 0x20d: "META_SETVIEWPORTORG", 0x20e:
    "META_SETVIEWPORTEXT", 0x20f: "META_OFFSETWINDOWORG", 0x211:
    "META_OFFSETVIEWPORTORG", 0x213: "META_LINETO", 0x214: "META_MOVETO", 0x220:
    "META_OFFSETCLIPRGN", 0x228: "META_FILLREGION", 0x231: "META_SETMAPPERFLAGS", 0x234:
    "META_SELECTPALETTE", 0x2fa: "META_CREATEPENINDIRECT", 0x2fb:
    "META_CREATEFONTINDIRECT", 0x2fc: "META_CREATEBRUSHINDIRECT", 0x324: "META_POLYGON",
    0x325: "META_POLYLINE", 0x410: "META_SCALEWINDOWEXT", 0x412:
    "META_SCALEVIEWPORTEXT", 0x415: "META_EXCLUDECLIPRECT", 0x416:
    "META_INTERSECTCLIPRECT", 0x418: "META_ELLIPSE", 0x419: "META_FLOODFILL", 0x41b:
    "META_RECTANGLE", 0x41f: "META_SETPIXEL", 0x429: "META_FRAMEREGION", 0x436:
    "META_ANIMATEPALETTE", 0x521: "META_TEXTOUT", 0x538: "META_POLYPOLYGON", 0x548:
    "META_EXTFLOODFILL", 0x61c: "META_ROUNDRECT", 0x61d: "META_PATBLT", 0x626:
    "META_ESCAPE", 0x6ff: "META_CREATEREGION", 0x817: "META_ARC", 0x81a: "META_PIE",
    0x830: "META_CHORD", 0x922: "META_BITBLT", 0x940: "META_DIBBITBLT", 0xa32:
    "META_EXTTEXTOUT", 0xb23: "META_STRETCHBLT", 0xb41: "META_DIBSTRETCHBLT", 0xd33:
    "META_SETDIBTODEV", 0xf43: "META_STRETCHDIB"}


MAP_MODES = {
    0x1: "MM_TEXT", 0x2: "MM_LOMETRIC", 0x3: "MM_HIMETRIC", 0x4: "MM_LOENGLISH", 0x5:
    "MM_HIENGLISH", 0x6: "MM_TWIPS", 0x7: "MM_ISOTROPIC", 0x8: "MM_ANISOTROPIC"}


STRETCH_MODES = {
    0x1: "BLACKONWHITE", 0x2: "WHITEONBLACK", 0x3: "COLORONCOLOR", 0x4: "HALFTONE"}


RASTER_OPERATIONS = {
    0x42: "BLACKNESS", 0x10289: "DPSOO", 0x20c89: "DPSON", 0x300aa: "PSO", 0x40c88:
    "SDPON", 0x500a9: "DPO", 0x60865: "PDSXNO", 0x702c5: "PDSAO", 0x80f08: "SDPNA",
    0x90245: "PDSXO", 0xa0329: "DPN", 0xb0b2a: "PSDNAO", 0xc0324: "SPN", 0xd0b25:
    "PDSNAO", 0xe08a5: "PDSONO", 0xf0001: "P", 0x100c85: "PDSON", 0x1100a6:
    "NOTSRCERAS", 0x120868: "SDPXNO", 0x1302c8: "SDPAO", 0x140869: "DPSXNO", 0x1502c9:
    "DPSAO", 0x165cca: "PSDPSANAX", 0x171d54: "SSPXDSXAX", 0x180d59: "SPXPDX", 0x191cc8:
    "SDPSANAX", 0x1a06c5: "PDSPAO", 0x1b0768: "SDPSXAX", 0x1c06ca: "PSDPAO", 0x1d0766:
    "DSPDXAX", 0x1e01a5: "PDSO", 0x1f0385: "PDSOA", 0x200f09: "DPSNA", 0x210248:
    "SDPXO", 0x220326: "DSN", 0x230b24: "SPDNAO", 0x240d55: "SPXDSX", 0x251cc5:
    "PDSPANAX", 0x2606c8: "SDPSAO", 0x271868: "SDPSXNOX", 0x280369: "DPSXA", 0x2916ca:
    "PSDPSAOXXN", 0x2a0cc9: "DPSANA", 0x2b1d58: "SSPXPDXAXN", 0x2c0784: "SPDSOAX",
    0x2d060a: "PSDNOX", 0x2e064a: "PSDPXOX", 0x2f0e2a: "PSDNOAN", 0x30032a: "PSNA",
    0x310b28: "SDPNAON", 0x320688: "SDPSOOX", 0x330008: "NOTSRCCOPY", 0x3406c4:
    "SPDSAOX", 0x351864: "SPDSXNOX", 0x3601a8: "SDPOX", 0x370388: "SDPOAN", 0x38078a:
    "PSDPOAX", 0x390604: "SPDNOX", 0x3a0644: "SPDSXOX", 0x3b0e24: "SPDNOAN", 0x3c004a:
    "PSX", 0x3d18a4: "SPDSONOX", 0x3e1b24: "SPDSNAOX", 0x3f00ea: "PSAN", 0x400f0a:
    "PSDNAA", 0x410249: "DPSXON", 0x420d5d: "SDXPDXA", 0x431cc4: "SPDSANAXN", 0x440328:
    "SRCERASE", 0x450b29: "DPSNAON", 0x4606c6: "DSPDAOX", 0x47076a: "PSDPXAXN",
    0x480368: "SDPXA", 0x4916c5: "PDSPDAOXXN", 0x4a0789: "DPSDOAX", 0x4b0605: "PDSNOX",
    0x4c0cc8: "SDPANA", 0x4d1954: "SSPXDSXOXN", 0x4e0645: "PDSPXOX", 0x4f0e25:
    "PDSNOAN", 0x500325: "PDNA", 0x510b26: "DSPNAON", 0x5206c9: "DPSDAOX", 0x530764:
    "SPDSXAXN", 0x5408a9: "DPSONON", 0x550009: "DSTINVERT", 0x5601a9: "DPSOX", 0x570389:
    "DPSOAN", 0x580785: "PDSPOAX", 0x590609: "DPSNOX", 0x5a0049: "PATINVERT", 0x5b18a9:
    "DPSDONOX", 0x5c0649: "DPSDXOX", 0x5d0e29: "DPSNOAN", 0x5e1b29: "DPSDNAOX",
    0x5f00e9: "DPAN", 0x600365: "PDSXA", 0x6116c6: "DSPDSAOXXN", 0x620786: "DSPDOAX",
    0x630608: "SDPNOX", 0x640788: "SDPSOAX", 0x650606: "DSPNOX", 0x660046: "SRCINVERT",
    0x6718a8: "SDPSONOX", 0x6858a6: "DSPDSONOXXN", 0x690145: "PDSXXN", 0x6a01e9:
    "DPSAX", 0x6b178a: "PSDPSOAXXN", 0x6c01e8: "SDPAX", 0x6d1785: "PDSPDOAXXN",
    0x6e1e28: "SDPSNOAX", 0x6f0c65: "PDXNAN", 0x700cc5: "PDSANA", 0x711d5c:
    "SSDXPDXAXN", 0x720648: "SDPSXOX", 0x730e28: "SDPNOAN", 0x740646: "DSPDXOX",
    0x750e26: "DSPNOAN", 0x761b28: "SDPSNAOX", 0x7700e6: "DSAN", 0x7801e5: "PDSAX",
    0x791786: "DSPDSOAXXN", 0x7a1e29: "DPSDNOAX", 0x7b0c68: "SDPXNAN", 0x7c1e24:
    "SPDSNOAX", 0x7d0c69: "DPSXNAN", 0x7e0955: "SPXDSXO", 0x7f03c9: "DPSAAN", 0x8003e9:
    "DPSAA", 0x810975: "SPXDSXON", 0x820c49: "DPSXNA", 0x831e04: "SPDSNOAXN", 0x840c48:
    "SDPXNA", 0x851e05: "PDSPNOAXN", 0x8617a6: "DSPDSOAXX", 0x8701c5: "PDSAXN",
    0x8800c6: "SRCAND", 0x891b08: "SDPSNAOXN", 0x8a0e06: "DSPNOA", 0x8b0666: "DSPDXOXN",
    0x8c0e08: "SDPNOA", 0x8d0668: "SDPSXOXN", 0x8e1d7c: "SSDXPDXAX", 0x8f0ce5:
    "PDSANAN", 0x900c45: "PDSXNA", 0x911e08: "SDPSNOAXN", 0x9217a9: "DPSDPOAXX",
    0x9301c4: "SPDAXN", 0x9417aa: "PSDPSOAXX", 0x9501c9: "DPSAXN", 0x960169: "DPSXX",
    0x97588a: "PSDPSONOXX", 0x981888: "SDPSONOXN", 0x990066: "DSXN", 0x9a0709: "DPSNAX",
    0x9b07a8: "SDPSOAXN", 0x9c0704: "SPDNAX", 0x9d07a6: "DSPDOAXN", 0x9e16e6:
    "DSPDSAOXX", 0x9f0345: "PDSXAN", 0xa000c9: "DPA", 0xa11b05: "PDSPNAOXN", 0xa20e09:
    "DPSNOA", 0xa30669: "DPSDXOXN", 0xa41885: "PDSPONOXN", 0xa50065: "PDXN", 0xa60706:
    "DSPNAX", 0xa707a5: "PDSPOAXN", 0xa803a9: "DPSOA", 0xa90189: "DPSOXN", 0xaa0029:
    "D", 0xab0889: "DPSONO", 0xac0744: "SPDSXAX", 0xad06e9: "DPSDAOXN", 0xae0b06:
    "DSPNAO", 0xaf0229: "DPNO", 0xb00e05: "PDSNOA", 0xb10665: "PDSPXOXN", 0xb21974:
    "SSPXDSXOX", 0xb30ce8: "SDPANAN", 0xb4070a: "PSDNAX", 0xb507a9: "DPSDOAXN",
    0xb616e9: "DPSDPAOXX", 0xb70348: "SDPXAN", 0xb8074a: "PSDPXAX", 0xb906e6:
    "DSPDAOXN", 0xba0b09: "DPSNAO", 0xbb0226: "MERGEPAINT", 0xbc1ce4: "SPDSANAX",
    0xbd0d7d: "SDXPDXAN", 0xbe0269: "DPSXO", 0xbf08c9: "DPSANO", 0xc000ca: "MERGECOPY",
    0xc11b04: "SPDSNAOXN", 0xc21884: "SPDSONOXN", 0xc3006a: "PSXN", 0xc40e04: "SPDNOA",
    0xc50664: "SPDSXOXN", 0xc60708: "SDPNAX", 0xc707aa: "PSDPOAXN", 0xc803a8: "SDPOA",
    0xc90184: "SPDOXN", 0xca0749: "DPSDXAX", 0xcb06e4: "SPDSAOXN", 0xcc0020: "SRCCOPY",
    0xcd0888: "SDPONO", 0xce0b08: "SDPNAO", 0xcf0224: "SPNO", 0xd00e0a: "PSDNOA",
    0xd1066a: "PSDPXOXN", 0xd20705: "PDSNAX", 0xd307a4: "SPDSOAXN", 0xd41d78:
    "SSPXPDXAX", 0xd50ce9: "DPSANAN", 0xd616ea: "PSDPSAOXX", 0xd70349: "DPSXAN",
    0xd80745: "PDSPXAX", 0xd906e8: "SDPSAOXN", 0xda1ce9: "DPSDANAX", 0xdb0d75:
    "SPXDSXAN", 0xdc0b04: "SPDNAO", 0xdd0228: "SDNO", 0xde0268: "SDPXO", 0xdf08c8:
    "SDPANO", 0xe003a5: "PDSOA", 0xe10185: "PDSOXN", 0xe20746: "DSPDXAX", 0xe306ea:
    "PSDPAOXN", 0xe40748: "SDPSXAX", 0xe506e5: "PDSPAOXN", 0xe61ce8: "SDPSANAX",
    0xe70d79: "SPXPDXAN", 0xe81d74: "SSPXDSXAX", 0xe95ce6: "DSPDSANAXXN", 0xea02e9:
    "DPSAO", 0xeb0849: "DPSXNO", 0xec02e8: "SDPAO", 0xed0848: "SDPXNO", 0xee0086:
    "SRCPAINT", 0xef0a08: "SDPNOO", 0xf00021: "PATCOPY", 0xf10885: "PDSONO", 0xf20b05:
    "PDSNAO", 0xf3022a: "PSNO", 0xf40b0a: "PSDNAO", 0xf50225: "PDNO", 0xf60265: "PDSXO",
    0xf708c5: "PDSANO", 0xf802e5: "PDSAO", 0xf90845: "PDSXNO", 0xfa0089: "DPO",
    0xfb0a09: "PATPAINT", 0xfc008a: "PSO", 0xfd0a0a: "PSDNOO", 0xfe02a9: "DPSOO",
    0xff0062: "WHITENESS"}
