"""Memory layout of every supported chip, as specified by the chip documentation (reference data of the oracle).

Order matters: an address belongs to the first type that contains it.  (name, primary, length, secondary)
"""
CHIPS = {
    'esp32': [
        ('DRAM', 0x3FFAE000, 0x52000, 0),
        ('IRAM', 0x40070000, 0x50000, 0),
        ('Flash Code', 0x400C2000, 0xB3E000, 0),
        ('Flash Data', 0x3F400000, 0x400000, 0),
        ('SPI DRAM', 0x3F800000, 0x400000, 0),
        ('RTC FAST', 0x3FF80000, 0x2000, 0x400C0000),
        ('RTC SLOW', 0x50000000, 0x2000, 0),
    ],
    'esp32c2': [
        ('DIRAM', 0x3FCA0000, 0x40000, 0x40380000),
        ('IRAM', 0x4037C000, 0x4000, 0),
        ('Flash Code', 0x42000000, 0x400000, 0),
        ('Flash Data', 0x3C000000, 0x400000, 0),
    ],
    'esp32c3': [
        ('DRAM', 0x3FC80000, 0x60000, 0x40380000),
        ('IRAM', 0x4037C000, 0x4000, 0),
        ('Flash Code', 0x42000000, 0x800000, 0),
        ('Flash Data', 0x3C000000, 0x800000, 0),
        ('RTC SLOW', 0x50000000, 0x2000, 0),
    ],
    'esp32c5': [
        ('HP SRAM', 0x40800000, 0x60000, 0x40800000),
        ('Flash', 0x42000000, 0x2000000, 0),
        ('CACHE_D', 0x42000000, 0x2000000, 0),
        ('External RAM', 0x42000000, 0x2000000, 0),
        ('LP SRAM', 0x50000000, 0x4000, 0),
    ],
    'esp32c6': [
        ('DIRAM', 0x40800000, 0x80000, 0x40800000),
        ('Flash Code', 0x42000000, 0x1000000, 0),
        ('Flash Data', 0x42000000, 0x1000000, 0),
        ('LP SRAM', 0x50000000, 0x4000, 0),
    ],
    'esp32c61': [
        ('DIRAM', 0x40800000, 0x50000, 0x40800000),
        ('Flash Code', 0x42000000, 0x2000000, 0),
        ('Flash Data', 0x42000000, 0x2000000, 0),
        ('External RAM', 0x42000000, 0x2000000, 0),
        ('LP SRAM', 0x50000000, 0x4000, 0),
    ],
    'esp32h2': [
        ('DIRAM', 0x40800000, 0x50000, 0x40800000),
        ('Flash Code', 0x42000000, 0x1000000, 0),
        ('Flash Data', 0x42000000, 0x1000000, 0),
        ('LP SRAM', 0x50000000, 0x1000, 0),
    ],
    'esp32h21': [
        ('DIRAM', 0x40800000, 0x50000, 0x40800000),
        ('Flash', 0x42000000, 0x1000000, 0),
        ('LP SRAM', 0x50000000, 0x1000, 0),
    ],
    'esp32h4': [
        ('DIRAM', 0x40808000, 0x60000, 0x40808000),
        ('Flash', 0x42000020, 0x2000000, 0),
        ('External RAM', 0x42000020, 0x2000000, 0),
    ],
    'esp32p4': [
        ('DIRAM', 0x4FF00000, 0xC0000, 0x4FF00000),
        ('Flash', 0x40000000, 0x4000000, 0),
        ('CACHE_D_1', 0x40000000, 0x4000000, 0),
        ('External RAM', 0x48000000, 0x4000000, 0),
        ('CACHE_D_2', 0x48000000, 0x4000000, 0),
        ('HP core RAM', 0x30100000, 0x2000, 0x30100000),
        ('LP RAM', 0x50108000, 0x8000, 0x50108000),
    ],
    'esp32s2': [
        ('DIRAM', 0x3FFB2000, 0x4E000, 0x40022000),
        ('Flash Data', 0x3F000000, 0x400000, 0),
        ('SPI DRAM', 0x3F500000, 0xA80000, 0),
        ('Flash Code', 0x40080000, 0x780000, 0),
        ('RTC FAST', 0x40070000, 0x2000, 0x3FF9E000),
        ('RTC SLOW', 0x50000000, 0x2000, 0),
    ],
    'esp32s3': [
        ('IRAM', 0x40370000, 0x8000, 0),
        ('DIRAM', 0x3FC88000, 0x68000, 0x40378000),
        ('DRAM', 0x3FCF0000, 0x10000, 0),
        ('Flash Code', 0x42000000, 0x2000000, 0),
        ('Flash Data', 0x3C000000, 0x2000000, 0),
        ('External RAM', 0x3C000000, 0x2000000, 0),
        ('RTC FAST', 0x3FF80000, 0x2000, 0x600FE000),
        ('RTC SLOW', 0x50000000, 0x2000, 0),
    ],
    'esp32s31': [
        ('DIRAM', 0x2F000000, 0x80000, 0x2F000000),
        ('Flash', 0x40000000, 0x4000000, 0),
        ('External RAM', 0x50000000, 0x4000000, 0),
        ('LP SRAM', 0x2E000000, 0x8000, 0),
    ],
}

EXT_RAM = ('External RAM', 'SPI DRAM')

# Memory configurations the way ESP-IDF's memory.ld writes them (name, origin, length, attributes)
REGIONS = {
    'esp32': [
        ('iram0_0_seg', 0x40080000, 0x20000, 'xr'), ('iram0_2_seg', 0x400D0020, 0x32FFE0, 'xr'),
        ('dram0_0_seg', 0x3FFB0000, 0x2C200, 'rw'), ('drom0_0_seg', 0x3F400020, 0x3FFFE0, 'r'),
        ('rtc_iram_seg', 0x400C0000, 0x2000, 'xrw'), ('rtc_data_seg', 0x3FF80000, 0x2000, 'rw'),
        ('rtc_fast_reserved_seg', 0x3FF82000, 0, 'rw'), ('rtc_slow_seg', 0x50000000, 0x1FE8, 'rw'),
        ('rtc_slow_reserved_seg', 0x50001FE8, 0x18, 'rw'), ('extern_ram_seg', 0x3F800000, 0x400000, 'xrw'),
    ],
    'esp32c2': [
        ('iram0_0_seg', 0x4037C000, 0x32000, 'xr'), ('iram0_2_seg', 0x42000020, 0x3FFFE0, 'xr'),
        ('dram0_0_seg', 0x3FCA0000, 0x2E000, 'rw'), ('drom0_0_seg', 0x3C000020, 0x3FFFE0, 'r'),
    ],
    'esp32c3': [
        ('iram0_0_seg', 0x4037C000, 0x54000, 'xr'), ('iram0_2_seg', 0x42000020, 0x7FFFE0, 'xr'),
        ('dram0_0_seg', 0x3FC80000, 0x50000, 'rw'), ('drom0_0_seg', 0x3C000020, 0x7FFFE0, 'r'),
        ('rtc_iram_seg', 0x50000000, 0x1FE8, 'xrw'), ('rtc_reserved_seg', 0x50001FE8, 0x18, 'rw'),
    ],
    'esp32c5': [
        ('irom_seg', 0x42000020, 0x1FFFFE0, 'xr'), ('drom_seg', 0x42000020, 0x1FFFFE0, 'r'),
        ('sram_seg', 0x40800000, 0x4E710, 'rwx'), ('lp_ram_seg', 0x50000000, 0x3FE8, 'rw'),
        ('lp_reserved_seg', 0x50003FE8, 0x18, 'rw'), ('extern_ram_seg', 0x42000020, 0x1FFFFE0, 'rw'),
    ],
    'esp32c6': [
        ('irom_seg', 0x42000020, 0xFFFFE0, 'xr'), ('drom_seg', 0x42000020, 0xFFFFE0, 'r'),
        ('sram_seg', 0x40800000, 0x6E610, 'rwx'), ('lp_ram_seg', 0x50000000, 0x3FE8, 'rw'),
        ('lp_reserved_seg', 0x50003FE8, 0x18, 'rw'),
    ],
    'esp32c61': [
        ('irom_seg', 0x42000020, 0x1FFFFE0, 'xr'), ('drom_seg', 0x42000020, 0x1FFFFE0, 'r'),
        ('sram_seg', 0x40800000, 0x3EA70, 'rwx'), ('extern_ram_seg', 0x42000020, 0x1FFFFE0, 'rw'),
    ],
    'esp32h2': [
        ('irom_seg', 0x42000020, 0xFFFFE0, 'xr'), ('drom_seg', 0x42000020, 0xFFFFE0, 'r'),
        ('sram_seg', 0x40800000, 0x4BE20, 'rwx'), ('lp_ram_seg', 0x50000000, 0xFE8, 'rw'),
        ('lp_reserved_seg', 0x50000FE8, 0x18, 'rw'),
    ],
    'esp32h21': [
        ('irom_seg', 0x42000020, 0xFFFFE0, 'xr'), ('drom_seg', 0x42000020, 0xFFFFE0, 'r'),
        ('sram_seg', 0x40800000, 0x4BE20, 'rwx'), ('lp_ram_seg', 0x50000000, 0xFE8, 'rw'),
    ],
    'esp32h4': [
        ('irom_seg', 0x42000020, 0x1FFFFE0, 'xr'), ('drom_seg', 0x42000020, 0x1FFFFE0, 'r'),
        ('sram_seg', 0x40808000, 0x4B500, 'rwx'), ('extern_ram_seg', 0x42000020, 0x1FFFFE0, 'rw'),
    ],
    'esp32p4': [
        ('irom_seg', 0x40000020, 0x3FFFFE0, 'xr'), ('drom_seg', 0x40000020, 0x3FFFFE0, 'r'),
        ('sram_low', 0x4FF00000, 0x2CBD0, 'rwx'), ('sram_high', 0x4FF40000, 0x60000, 'rwx'),
        ('ext_ram_seg', 0x48000020, 0x3FFFFE0, 'rwx'), ('lp_ram_seg', 0x50108000, 0x7FE8, 'rw'),
        ('lp_reserved_seg', 0x5010FFE8, 0x18, 'rw'), ('tcm_idram_seg', 0x30100000, 0x2000, 'rwx'),
    ],
    'esp32s2': [
        ('iram0_0_seg', 0x40024000, 0x4A000, 'xr'), ('iram0_2_seg', 0x40080020, 0x77FFE0, 'xr'),
        ('dram0_0_seg', 0x3FFB4000, 0x4A000, 'rw'), ('drom0_0_seg', 0x3F000020, 0x3EFFE0, 'r'),
        ('rtc_iram_seg', 0x40070000, 0x2000, 'xrw'), ('rtc_data_seg', 0x3FF9E000, 0x2000, 'rw'),
        ('rtc_slow_seg', 0x50000000, 0x1FE8, 'rw'), ('rtc_slow_reserved_seg', 0x50001FE8, 0x18, 'rw'),
        ('extern_ram_seg', 0x3F500000, 0xA80000, 'rw'),
    ],
    'esp32s3': [
        ('iram0_0_seg', 0x40374000, 0x65700, 'xr'), ('iram0_2_seg', 0x42000020, 0x1FFFFE0, 'xr'),
        ('dram0_0_seg', 0x3FC88000, 0x61700, 'rw'), ('drom0_0_seg', 0x3C000020, 0x1FFFFE0, 'r'),
        ('rtc_iram_seg', 0x600FE000, 0x1FE8, 'xrw'), ('rtc_data_seg', 0x600FE000, 0x1FE8, 'rw'),
        ('rtc_reserved_seg', 0x600FFFE8, 0x18, 'rw'), ('rtc_slow_seg', 0x50000000, 0x2000, 'rw'),
        ('extern_ram_seg', 0x3C000020, 0x1FFFFE0, 'rw'),
    ],
    'esp32s31': [
        ('irom_seg', 0x40000020, 0x3FFFFE0, 'xr'), ('drom_seg', 0x40000020, 0x3FFFFE0, 'r'),
        ('sram_seg', 0x2F000000, 0x70000, 'rwx'), ('ext_ram_seg', 0x50000020, 0x3FFFFE0, 'rwx'),
        ('lp_ram_seg', 0x2E000000, 0x7FE8, 'rw'),
    ],
}
