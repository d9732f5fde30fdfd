"""The documented IMMA1 layout: per attachment its name and its fields in order (name, characters, scale, kind), kind 1 a
number, 2 a base-36 digit, 3 text; and the length of the whole attachment with its four-character header (the core has none)."""
LAYOUT = {
    '00': ('core', [
        ('YR', 4, 1.0, 1), ('MO', 2, 1.0, 1), ('DY', 2, 1.0, 1), ('HR', 4, 0.01, 1), ('LAT', 5, 0.01, 1),
        ('LON', 6, 0.01, 1), ('IM', 2, 1.0, 1), ('ATTC', 1, 1.0, 2), ('TI', 1, 1.0, 1), ('LI', 1, 1.0, 1),
        ('DS', 1, 1.0, 1), ('VS', 1, 1.0, 1), ('NID', 2, 1.0, 1), ('II', 2, 1.0, 1), ('ID', 9, None, 3),
        ('C1', 2, None, 3), ('DI', 1, 1.0, 1), ('D', 3, 1.0, 1), ('WI', 1, 1.0, 1), ('W', 3, 0.1, 1), ('VI', 1, 1.0, 1),
        ('VV', 2, 1.0, 1), ('WW', 2, 1.0, 1), ('W1', 1, 1.0, 1), ('SLP', 5, 0.1, 1), ('A', 1, 1.0, 1),
        ('PPP', 3, 0.1, 1), ('IT', 1, 1.0, 1), ('AT', 4, 0.1, 1), ('WBTI', 1, 1.0, 1), ('WBT', 4, 0.1, 1),
        ('DPTI', 1, 1.0, 1), ('DPT', 4, 0.1, 1), ('SI', 2, 1.0, 1), ('SST', 4, 0.1, 1), ('N', 1, 1.0, 1),
        ('NH', 1, 1.0, 1), ('CL', 1, 1.0, 2), ('HI', 1, 1.0, 1), ('H', 1, 1.0, 2), ('CM', 1, 1.0, 2), ('CH', 1, 1.0, 2),
        ('WD', 2, 1.0, 1), ('WP', 2, 1.0, 1), ('WH', 2, 1.0, 1), ('SD', 2, 1.0, 1), ('SP', 2, 1.0, 1),
        ('SH', 2, 1.0, 1),
    ]),
    '01': ('icoads', [
        ('BSI', 1, 1.0, 1), ('B10', 3, 1.0, 1), ('B1', 2, 1.0, 1), ('DCK', 3, 1.0, 1), ('SID', 3, 1.0, 1),
        ('PT', 2, 1.0, 1), ('DUPS', 2, 1.0, 1), ('DUPC', 1, 1.0, 1), ('TC', 1, 1.0, 1), ('PB', 1, 1.0, 1),
        ('WX', 1, 1.0, 1), ('SX', 1, 1.0, 1), ('C2', 2, 1.0, 1), ('SQZ', 1, 1.0, 2), ('SQA', 1, 1.0, 2),
        ('AQZ', 1, 1.0, 2), ('AQA', 1, 1.0, 2), ('UQZ', 1, 1.0, 2), ('UQA', 1, 1.0, 2), ('VQZ', 1, 1.0, 2),
        ('VQA', 1, 1.0, 2), ('PQZ', 1, 1.0, 2), ('PQA', 1, 1.0, 2), ('DQZ', 1, 1.0, 2), ('DQA', 1, 1.0, 2),
        ('ND', 1, 1.0, 1), ('SF', 1, 1.0, 2), ('AF', 1, 1.0, 2), ('UF', 1, 1.0, 2), ('VF', 1, 1.0, 2),
        ('PF', 1, 1.0, 2), ('RF', 1, 1.0, 2), ('ZNC', 1, 1.0, 2), ('WNC', 1, 1.0, 2), ('BNC', 1, 1.0, 2),
        ('XNC', 1, 1.0, 2), ('YNC', 1, 1.0, 2), ('PNC', 1, 1.0, 2), ('ANC', 1, 1.0, 2), ('GNC', 1, 1.0, 2),
        ('DNC', 1, 1.0, 2), ('SNC', 1, 1.0, 2), ('CNC', 1, 1.0, 2), ('ENC', 1, 1.0, 2), ('FNC', 1, 1.0, 2),
        ('TNC', 1, 1.0, 2), ('QCE', 2, 1.0, 1), ('LZ', 1, 1.0, 1), ('QCZ', 2, 1.0, 1),
    ]),
    '02': ('immt2', [
        ('OS', 1, 1.0, 1), ('OP', 1, 1.0, 1), ('FM', 2, 1.0, 1), ('IX', 1, 1.0, 1), ('W2', 1, 1.0, 1),
        ('SGN', 1, 1.0, 1), ('SGT', 1, 1.0, 2), ('SGH', 2, 1.0, 1), ('WMI', 1, 1.0, 1), ('SD2', 2, 1.0, 1),
        ('SP2', 2, 1.0, 1), ('SH2', 2, 1.0, 1), ('IS', 1, 1.0, 1), ('ES', 2, 1.0, 1), ('RS', 1, 1.0, 1),
        ('IC1', 1, 1.0, 2), ('IC2', 1, 1.0, 2), ('IC3', 1, 1.0, 2), ('IC4', 1, 1.0, 2), ('IC5', 1, 1.0, 2),
        ('IR', 1, 1.0, 1), ('RRR', 3, 1.0, 1), ('TR', 1, 1.0, 1), ('QCI', 1, 1.0, 1), ('QI1', 1, 1.0, 1),
        ('QI2', 1, 1.0, 1), ('QI3', 1, 1.0, 1), ('QI4', 1, 1.0, 1), ('QI5', 1, 1.0, 1), ('QI6', 1, 1.0, 1),
        ('QI7', 1, 1.0, 1), ('QI8', 1, 1.0, 1), ('QI9', 1, 1.0, 1), ('QI10', 1, 1.0, 1), ('QI11', 1, 1.0, 1),
        ('QI12', 1, 1.0, 1), ('QI13', 1, 1.0, 1), ('QI14', 1, 1.0, 1), ('QI15', 1, 1.0, 1), ('QI16', 1, 1.0, 1),
        ('QI17', 1, 1.0, 1), ('QI18', 1, 1.0, 1), ('QI19', 1, 1.0, 1), ('QI20', 1, 1.0, 1), ('QI21', 1, 1.0, 1),
        ('HDG', 3, 1.0, 1), ('COG', 3, 1.0, 1), ('SOG', 2, 1.0, 1), ('SLL', 2, 1.0, 1), ('SLHH', 3, 1.0, 1),
        ('RWD', 3, 1.0, 1), ('RWS', 3, 0.1, 1),
    ]),
    '03': ('mqc', [
        ('CCCC', 4, None, 3), ('BUID', 6, None, 3), ('BMP', 5, 0.1, 1), ('BSWU', 4, 0.1, 1), ('SWU', 4, 0.1, 1),
        ('BSWV', 4, 0.1, 1), ('SWV', 4, 0.1, 1), ('BSAT', 4, 0.1, 1), ('BSRH', 3, 1.0, 1), ('SRH', 3, 1.0, 1),
        ('SIX', 1, 1.0, 1), ('BSST', 4, 0.1, 1), ('MST', 1, 1.0, 1), ('MSH', 3, 1.0, 1), ('BY', 4, 1.0, 1),
        ('BM', 2, 1.0, 1), ('BD', 2, 1.0, 1), ('BH', 2, 1.0, 1), ('BFL', 2, 1.0, 1),
    ]),
    '04': ('metadata', [
        ('C1M', 2, None, 3), ('OPM', 2, 1.0, 1), ('KOV', 2, None, 3), ('COR', 2, None, 3), ('TOB', 3, None, 3),
        ('TOT', 3, None, 3), ('EOT', 2, None, 3), ('LOT', 2, None, 3), ('TOH', 1, None, 3), ('EOH', 2, None, 3),
        ('SIM', 3, None, 3), ('LOV', 3, 1.0, 1), ('DOS', 2, 1.0, 1), ('HOP', 3, 1.0, 1), ('HOT', 3, 1.0, 1),
        ('HOB', 3, 1.0, 1), ('HOA', 3, 1.0, 1), ('SMF', 5, 1.0, 1), ('SME', 5, 1.0, 1), ('SMV', 2, 1.0, 1),
    ]),
    '05': ('IMMT-5/FM 13', [
        ('OS', 1, 1.0, 1), ('OP', 1, 1.0, 1), ('FM', 1, 1.0, 2), ('IMMV', 1, 1.0, 2), ('IX', 1, 1.0, 1),
        ('W2', 1, 1.0, 1), ('WMI', 1, 1.0, 1), ('SD2', 2, 1.0, 1), ('SP2', 2, 1.0, 1), ('SH2', 2, 1.0, 1),
        ('IS', 1, 1.0, 1), ('ES', 2, 1.0, 1), ('RS', 1, 1.0, 1), ('IC1', 1, 1.0, 2), ('IC2', 1, 1.0, 2),
        ('IC3', 1, 1.0, 2), ('IC4', 1, 1.0, 2), ('IC5', 1, 1.0, 2), ('IR', 1, 1.0, 1), ('RRR', 3, 1.0, 1),
        ('TR', 1, 1.0, 1), ('NU', 1, None, 3), ('QCI', 1, 1.0, 1), ('QI1', 1, 1.0, 1), ('QI2', 1, 1.0, 1),
        ('QI3', 1, 1.0, 1), ('QI4', 1, 1.0, 1), ('QI5', 1, 1.0, 1), ('QI6', 1, 1.0, 1), ('QI7', 1, 1.0, 1),
        ('QI8', 1, 1.0, 1), ('QI9', 1, 1.0, 1), ('QI10', 1, 1.0, 1), ('QI11', 1, 1.0, 1), ('QI12', 1, 1.0, 1),
        ('QI13', 1, 1.0, 1), ('QI14', 1, 1.0, 1), ('QI15', 1, 1.0, 1), ('QI16', 1, 1.0, 1), ('QI17', 1, 1.0, 1),
        ('QI18', 1, 1.0, 1), ('QI19', 1, 1.0, 1), ('QI20', 1, 1.0, 1), ('QI21', 1, 1.0, 1), ('HDG', 3, 1.0, 1),
        ('COG', 3, 1.0, 1), ('SOG', 2, 1.0, 1), ('SLL', 2, 1.0, 1), ('SLHH', 3, 1.0, 1), ('RWD', 3, 1.0, 1),
        ('RWS', 3, 0.1, 1), ('QI22', 1, 1.0, 1), ('QI23', 1, 1.0, 1), ('QI24', 1, 1.0, 1), ('QI25', 1, 1.0, 1),
        ('QI26', 1, 1.0, 1), ('QI27', 1, 1.0, 1), ('QI28', 1, 1.0, 1), ('QI29', 1, 1.0, 1), ('RH', 4, 0.1, 1),
        ('RHI', 1, 1.0, 1), ('AWSI', 1, 1.0, 1), ('IMONO', 7, 1.0, 1),
    ]),
    '06': ('Model quality control', [
        ('CCCC', 4, None, 3), ('BUID', 6, None, 3), ('FBSRC', 1, 1.0, 1), ('BMP', 5, 0.1, 1), ('BSWU', 4, 0.1, 1),
        ('SWU', 4, 0.1, 1), ('BSWV', 4, 0.1, 1), ('SWV', 4, 0.1, 1), ('BSAT', 4, 0.1, 1), ('BSRH', 3, 1.0, 1),
        ('SRH', 3, 1.0, 1), ('BSST', 5, 0.1, 1), ('MST', 1, 1.0, 1), ('MSH', 4, 1.0, 1), ('BY', 4, 1.0, 1),
        ('BM', 2, 1.0, 1), ('BD', 2, 1.0, 1), ('BH', 2, 1.0, 1), ('BFL', 2, 1.0, 1),
    ]),
    '07': ('Ship metadata', [
        ('MDS', 1, 1.0, 1), ('C1M', 2, None, 3), ('OPM', 2, 1.0, 1), ('KOV', 2, None, 3), ('COR', 2, None, 3),
        ('TOB', 3, None, 3), ('TOT', 3, None, 3), ('EOT', 2, None, 3), ('LOT', 2, None, 3), ('TOH', 1, None, 3),
        ('EOH', 2, None, 3), ('SIM', 3, None, 3), ('LOV', 3, 1.0, 1), ('DOS', 2, 1.0, 1), ('HOP', 3, 1.0, 1),
        ('HOT', 3, 1.0, 1), ('HOB', 3, 1.0, 1), ('HOA', 3, 1.0, 1), ('SMF', 5, 1.0, 1), ('SME', 5, 1.0, 1),
        ('SMV', 2, 1.0, 1),
    ]),
    '08': ('NOCN', [
        ('OTV', 5, 0.001, 1), ('OTZ', 4, 0.01, 1), ('OSV', 5, 0.001, 1), ('OSZ', 4, 0.01, 1), ('OOV', 4, 0.01, 1),
        ('OOZ', 4, 0.01, 1), ('OPV', 4, 0.01, 1), ('OPZ', 4, 0.01, 1), ('OSIV', 5, 0.01, 1), ('OSIZ', 4, 0.01, 1),
        ('ONV', 5, 0.01, 1), ('ONZ', 4, 0.01, 1), ('OPHV', 3, 0.01, 1), ('OPHZ', 4, 0.01, 1), ('OCV', 4, 0.01, 1),
        ('OCZ', 4, 0.01, 1), ('OAV', 3, 0.01, 1), ('OAZ', 4, 0.01, 1), ('OPCV', 4, 0.1, 1), ('OPCZ', 4, 0.01, 1),
        ('ODV', 2, 0.1, 1), ('ODZ', 4, 0.01, 1), ('PUID', 10, None, 3),
    ]),
    '09': ('Ecr', [
        ('CCe', 1, 1.0, 2), ('WWe', 2, 1.0, 1), ('Ne', 1, 1.0, 1), ('NHe', 1, 1.0, 1), ('He', 1, 1.0, 1),
        ('CLe', 2, 1.0, 1), ('CMe', 2, 1.0, 1), ('CHe', 1, 1.0, 1), ('AM', 3, 0.01, 1), ('AH', 3, 0.01, 1),
        ('UM', 1, 1.0, 1), ('UH', 1, 1.0, 1), ('SBI', 1, 1.0, 1), ('SA', 4, 0.1, 1), ('RI', 4, 0.01, 1),
    ]),
    '95': ('Rean-qc', [
        ('ICNR', 2, 1.0, 1), ('FNR', 2, 1.0, 1), ('DPRO', 2, 1.0, 1), ('DPRP', 2, 1.0, 1), ('UFR', 1, 1.0, 1),
        ('MFGR', 7, 1.0, 1), ('MFGSR', 7, 1.0, 1), ('MAR', 7, 1.0, 1), ('MASR', 7, 1.0, 1), ('BCR', 7, 1.0, 1),
        ('ARCR', 4, None, 3), ('CDR', 8, 1.0, 1), ('ASIR', 1, 1.0, 1),
    ]),
    '96': ('IVAD', [
        ('ICNI', 2, 1.0, 1), ('FNI', 2, 1.0, 1), ('JVAD', 1, 1.0, 2), ('VAD', 6, 1.0, 1), ('IVAU1', 1, 1.0, 2),
        ('JVAU1', 1, 1.0, 2), ('VAU1', 6, 1.0, 1), ('IVAU2', 1, 1.0, 2), ('JVAU2', 1, 1.0, 2), ('VAU2', 6, 1.0, 1),
        ('IVAU3', 1, 1.0, 2), ('JVAU3', 1, 1.0, 2), ('VAU3', 6, 1.0, 1), ('VQC', 1, 1.0, 1), ('ARCI', 4, None, 3),
        ('CDI', 8, 1.0, 1), ('ASII', 1, 1.0, 1),
    ]),
    '97': ('Error', [
        ('ICNE', 2, 1.0, 1), ('FNE', 2, 1.0, 1), ('CEF', 1, 1.0, 1), ('ERRD', 10, None, 1), ('ARCE', 4, None, 3),
        ('CDE', 8, 1.0, 1), ('ASIE', 1, 1.0, 1),
    ]),
    '98': ('Uida', [
        ('UID', 6, None, 3), ('RN1', 1, 1.0, 2), ('RN2', 1, 1.0, 2), ('RN3', 1, 1.0, 2), ('RSA', 1, 1.0, 1),
        ('IRF', 1, 1.0, 1),
    ]),
    '99': ('supplemental', [
        ('ATTE', 1, None, 1), ('SUPD', None, None, 3),
    ]),
}
LENGTH = {'00': 108, '01': 65, '02': 76, '03': 66, '04': 57, '05': 94, '06': 68, '07': 58, '08': 102, '09': 32, '95': 61, '96': 53, '97': 32, '98': 15, '99': None}
