"""Signature codes of ICC.1:2010 and lcms2 2.13 (include/lcms2.h, lcms2_plugin.h), by group and name."""
SIGNATURES = {
    'color_space': {
        'CMY': 'CMY ', 'CMYK': 'CMYK', 'COLOR1': '1CLR', 'COLOR10': 'ACLR', 'COLOR11': 'BCLR', 'COLOR12': 'CCLR', 'COLOR13': 'DCLR',
        'COLOR14': 'ECLR', 'COLOR15': 'FCLR', 'COLOR2': '2CLR', 'COLOR3': '3CLR', 'COLOR4': '4CLR', 'COLOR5': '5CLR', 'COLOR6': '6CLR',
        'COLOR7': '7CLR', 'COLOR8': '8CLR', 'COLOR9': '9CLR', 'GRAY': 'GRAY', 'HLS': 'HLS ', 'HSV': 'HSV ', 'LAB': 'Lab ', 'LUV': 'Luv ',
        'LUVK': 'LuvK', 'MCH1': 'MCH1', 'MCH2': 'MCH2', 'MCH3': 'MCH3', 'MCH4': 'MCH4', 'MCH5': 'MCH5', 'MCH6': 'MCH6', 'MCH7': 'MCH7',
        'MCH8': 'MCH8', 'MCH9': 'MCH9', 'MCHA': 'MCHA', 'MCHB': 'MCHB', 'MCHC': 'MCHC', 'MCHD': 'MCHD', 'MCHE': 'MCHE', 'MCHF': 'MCHF',
        'NAMED': 'nmcl', 'RGB': 'RGB ', 'XYZ': 'XYZ ', 'YCBCR': 'YCbr', 'YXY': 'Yxy ',
    },
    'curve_segment': {
        'FORMULA': 'parf', 'SAMPLED': 'samf', 'SEGMENTED': 'curf',
    },
    'platform': {
        'MACINTOSH': 'APPL', 'MICROSOFT': 'MSFT', 'SGI': 'SGI ', 'SOLARIS': 'SUNW', 'TALIGENT': 'TGNT', 'UNICES': '*nix',
    },
    'plugin_type': {
        'FORMATTERS': 'frmH', 'INTERPOLATION': 'inpH', 'MAGIC': 'acpp', 'MULTI_PROCESS_ELEMENT': 'mpeH', 'OPTIMIZATION': 'optH',
        'PARAMETRIC_CURVE': 'parH', 'RENDERING_INTENT': 'intH', 'TAG': 'tagH', 'TAG_TYPE': 'typH', 'TRANSFORM': 'xfmH',
    },
    'profile_class': {
        'ABSTRACT': 'abst', 'COLOR_SPACE': 'spac', 'DISPLAY': 'mntr', 'INPUT': 'scnr', 'LINK': 'link', 'NAMED_COLOR': 'nmcl', 'OUTPUT': 'prtr',
    },
    'signatures': {
        'DN': 'DN  ', 'DNN': 'DNN ', 'DNNP': 'DNNP', 'DNP': 'DN P', 'FOCAL_PLANE_COLORIMETRY_ESTIMATES': 'fpce', 'LCMS_SIGNATURE': 'lcms',
        'MAGIC_NUMBER': 'acsp', 'PERCEPTUAL_REFERENCE_MEDIUM_GAMUT': 'prmg', 'REFLECTION_HARDCOPY_ORIGINAL_COLORIMETRY': 'rhoc',
        'REFLECTION_PRINT_OUTPUT_COLORIMETRY': 'rpoc', 'SCENE_APPEARANCE_ESTIMATES': 'sape', 'SCENE_COLORIMETRY_ESTIMATES': 'scoe',
        'STATUS_A': 'StaA', 'STATUS_E': 'StaE', 'STATUS_I': 'StaI', 'STATUS_M': 'StaM', 'STATUS_T': 'StaT',
    },
    'stage': {
        'B_ACS_ELEM_TYPE': 'bACS', 'CLIP_NEGATIVES_ELEM_TYPE': 'clp ', 'CURVE_SET_ELEM_TYPE': 'cvst', 'C_LUT_ELEM_TYPE': 'clut',
        'E_ACS_ELEM_TYPE': 'eACS', 'FLOAT_PCS_TO_LAB': 'l2d ', 'FLOAT_PCS_TO_XYZ': 'x2d ', 'IDENTITY_ELEM_TYPE': 'idn ', 'LAB_TO_FLOAT_PCS': 'd2l ',
        'LAB_TO_XYZ_ELEM_TYPE': 'x2l ', 'LAB_V2_TO_V4': '2 4 ', 'LAB_V4_TO_V2': '4 2 ', 'MATRIX_ELEM_TYPE': 'matf', 'NAMED_COLOR_ELEM_TYPE': 'ncl ',
        'XYZ_TO_FLOAT_PCS': 'd2x ', 'XYZ_TO_LAB_ELEM_TYPE': 'l2x ',
    },
    'tag': {
        'ARGYLL_ARTS': 'arts', 'A_TO_B0': 'A2B0', 'A_TO_B1': 'A2B1', 'A_TO_B2': 'A2B2', 'BLUE_COLORANT': 'bXYZ', 'BLUE_MATRIX_COLUMN': 'bXYZ',
        'BLUE_TRC': 'bTRC', 'B_TO_A0': 'B2A0', 'B_TO_A1': 'B2A1', 'B_TO_A2': 'B2A2', 'B_TO_D0': 'B2D0', 'B_TO_D1': 'B2D1', 'B_TO_D2': 'B2D2',
        'B_TO_D3': 'B2D3', 'CALIBRATION_DATE_TIME': 'calt', 'CHAR_TARGET': 'targ', 'CHROMATICITY': 'chrm', 'CHROMATIC_ADAPTATION': 'chad',
        'COLORANT_ORDER': 'clro', 'COLORANT_TABLE': 'clrt', 'COLORANT_TABLE_OUT': 'clot', 'COLORIMETRIC_INTENT_IMAGE_STATE': 'ciis',
        'COPYRIGHT': 'cprt', 'CRD_INFO': 'crdi', 'DATA': 'data', 'DATE_TIME': 'dtim', 'DEVICE_MFG_DESC': 'dmnd', 'DEVICE_MODEL_DESC': 'dmdd',
        'DEVICE_SETTINGS': 'devs', 'D_TO_B0': 'D2B0', 'D_TO_B1': 'D2B1', 'D_TO_B2': 'D2B2', 'D_TO_B3': 'D2B3', 'GAMUT': 'gamt', 'GRAY_TRC': 'kTRC',
        'GREEN_COLORANT': 'gXYZ', 'GREEN_MATRIX_COLUMN': 'gXYZ', 'GREEN_TRC': 'gTRC', 'LUMINANCE': 'lumi', 'MEASUREMENT': 'meas',
        'MEDIA_BLACK_POINT': 'bkpt', 'MEDIA_WHITE_POINT': 'wtpt', 'META': 'meta', 'NAMED_COLOR': 'ncol', 'NAMED_COLOR2': 'ncl2',
        'OUTPUT_RESPONSE': 'resp', 'PERCEPTUAL_RENDERING_INTENT_GAMUT': 'rig0', 'PREVIEW0': 'pre0', 'PREVIEW1': 'pre1', 'PREVIEW2': 'pre2',
        'PROFILE_DESCRIPTION': 'desc', 'PROFILE_DESCRIPTION_ML': 'dscm', 'PROFILE_SEQUENCE_DESC': 'pseq', 'PROFILE_SEQUENCE_ID': 'psid',
        'PS2_CRD0': 'psd0', 'PS2_CRD1': 'psd1', 'PS2_CRD2': 'psd2', 'PS2_CRD3': 'psd3', 'PS2_CSA': 'ps2s', 'PS2_RENDERING_INTENT': 'ps2i',
        'RED_COLORANT': 'rXYZ', 'RED_MATRIX_COLUMN': 'rXYZ', 'RED_TRC': 'rTRC', 'SATURATION_RENDERING_INTENT_GAMUT': 'rig2', 'SCREENING': 'scrn',
        'SCREENING_DESC': 'scrd', 'TECHNOLOGY': 'tech', 'UCR_BG': 'bfd ', 'VCGT': 'vcgt', 'VIEWING_CONDITIONS': 'view', 'VIEWING_COND_DESC': 'vued',
    },
    'tag_type': {
        'CHROMATICITY': 'chrm', 'COLORANT_ORDER': 'clro', 'COLORANT_TABLE': 'clrt', 'CRD_INFO': 'crdi', 'CURVE': 'curv', 'DATA': 'data',
        'DATE_TIME': 'dtim', 'DEVICE_SETTINGS': 'devs', 'DICT': 'dict', 'LUT16': 'mft2', 'LUT8': 'mft1', 'LUTA_TO_B': 'mAB ', 'LUTB_TO_A': 'mBA ',
        'MEASUREMENT': 'meas', 'MULTI_LOCALIZED_UNICODE': 'mluc', 'MULTI_PROCESS_ELEMENT': 'mpet', 'NAMED_COLOR': 'ncol', 'NAMED_COLOR2': 'ncl2',
        'PARAMETRIC_CURVE': 'para', 'PROFILE_SEQUENCE_DESC': 'pseq', 'PROFILE_SEQUENCE_ID': 'psid', 'RESPONSE_CURVE_SET16': 'rcs2',
        'S15_FIXED16_ARRAY': 'sf32', 'SCREENING': 'scrn', 'SIGNATURE': 'sig ', 'TEXT': 'text', 'TEXT_DESCRIPTION': 'desc',
        'U16_FIXED16_ARRAY': 'uf32', 'UCR_BG': 'bfd ', 'UINT16_ARRAY': 'ui16', 'UINT32_ARRAY': 'ui32', 'UINT64_ARRAY': 'ui64', 'UINT8_ARRAY': 'ui08',
        'VCGT': 'vcgt', 'VIEWING_CONDITIONS': 'view', 'XYZ': 'XYZ ',
    },
    'technology': {
        'AM_DISPLAY': 'AMD ', 'CRT_DISPLAY': 'CRT ', 'DIGITAL_CAMERA': 'dcam', 'DIGITAL_CINEMA_PROJECTOR': 'dcpj',
        'DIGITAL_MOTION_PICTURE_CAMERA': 'dmpc', 'DYE_SUBLIMATION_PRINTER': 'dsub', 'ELECTROPHOTOGRAPHIC_PRINTER': 'epho',
        'ELECTROSTATIC_PRINTER': 'esta', 'FILM_SCANNER': 'fscn', 'FILM_WRITER': 'fprn', 'FLEXOGRAPHY': 'flex', 'GRAVURE': 'grav',
        'INKJET_PRINTER': 'ijet', 'MOTION_PICTURE_FILM_RECORDER': 'mpfr', 'MOTION_PICTURE_FILM_SCANNER': 'mpfs', 'OFFSET_LITHOGRAPHY': 'offs',
        'PHOTOGRAPHIC_PAPER_PRINTER': 'rpho', 'PHOTO_CD': 'KPCD', 'PHOTO_IMAGE_SETTER': 'imgs', 'PM_DISPLAY': 'PMD ', 'PROJECTION_TELEVISION': 'pjtv',
        'REFLECTIVE_SCANNER': 'rscn', 'SILKSCREEN': 'silk', 'THERMAL_WAX_PRINTER': 'twax', 'VIDEO_CAMERA': 'vidc', 'VIDEO_MONITOR': 'vidm',
    },
}
