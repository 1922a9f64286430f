"""The standard textual header of SEG-Y, as documented for segpy: a frozen copy of the layout and of the names of its parts.

In TEMPLATE, placeholders are between braces, which belong to them.
"""

TEMPLATE = """\
C 1 CLIENT { client             } COMPANY { company           } CREW NO {crew  }
C 2 LINE { line   } AREA { area               } MAP ID { map_id                }
C 3 REEL NO {reelnum} DAY-START OF REEL {d} YEAR {yr} OBSERVER {observer       }
C 4 INSTRUMENT: MFG { mfg    } MODEL { model  } SERIAL NO { serial             }
C 5 DATA TRACES/RECORD {dtpr} AUXILIARY TRACES/RECORD {atpr } CDP FOLD {cdpfold}
C 6 SAMPLE INTERVAL {intvl} SAMPLES/TRACE {spt} BITS/IN {bi} BYTES/SAMPLE {bps }
C 7 RECORDING FORMAT {rfmt} FORMAT THIS REEL {ftr } MEASUREMENT SYSTEM {measmnt}
C 8 SAMPLE CODE: FLOATING PT {f} FIXED PT {x} FIXED PT-GAIN {g} CORRELATED {cor}
C 9 GAIN  TYPE: FIXED {i} BINARY {b} FLOATING POINT {c} OTHER {other           }
C10 FILTERS: ALIAS {a }HZ  NOTCH {n }HZ  BAND {b1}-{b2 }HZ  SLOPE {s}-{s2}DB/OCT
C11 SOURCE: TYPE {type    } NUMBER/POINT {npt } POINT INTERVAL {point_interval }
C12     PATTERN: {source_pattern         } LENGTH {lent} WIDTH {width          }
C13 SWEEP: START {ss}HZ  END {se}HZ  LENGTH {lms}MS  CHANNEL NO {q} TYPE {cd   }
C14 TAPER: START LENGTH {tsl }MS  END LENGTH {tel }MS  TYPE {taper_type        }
C15 SPREAD: OFFSET {off } MAX DISTANCE {md  } GROUP INTERVAL {group_interval   }
C16 GEOPHONES: PER GROUP {p} SPACING {y} FREQUENCY {r} MFG {gmfg  } MODEL {gmod}
C17     PATTERN: {geophone_pattern      } LENGTH {glen} WIDTH {geophone_width  }
C18 TRACES SORTED BY: RECORD {u} CDP {v} OTHER { sort_other                    }
C19 AMPLITUDE RECOVERY: NONE {ar} SPHERICAL DIV {sd } AGC {} OTHER {ar_other   }
C20 MAP PROJECTION {map_projection  } ZONE ID {zid} COORDINATE UNITS {co_units }
C21 PROCESSING: { processing1                                                  }
C22 PROCESSING: { processing2                                                  }
""" + ''.join('C{} {{ unassigned{} }}\n'.format(22 + i, i) for i in range(1, 18)) + """\
C40 { end_marker                                                               }
"""

# Arguments in the order of their placeholders
NAMES = """
client company crew_number
line area map_id
reel_number day_start_of_reel year observer
instrument_manufacturer instrument_model instrument_serial
data_traces_per_record auxiliary_traces_per_record cdp_fold
sample_interval samples_per_trace bits_per_inch bytes_per_sample
recording_format format_this_reel measurement_system
sample_code_floating_point sample_code_fixed_point sample_code_fixed_point_gain sample_code_correlated
gain_type_fixed gain_type_binary gain_type_fixed_point_gain gain_type_other
filters_alias_hz filters_notch_hz filters_band_lower_hz filters_band_upper_hz filters_slope_lower_db_per_oct filters_slope_upper_db_per_oct
source_type source_number_per_point source_point_interval
source_pattern source_length source_width
sweep_start_hz sweep_end_hz sweep_length_ms sweep_channel_number sweep_type
taper_start_length_ms taper_end_length_ms taper_type
spread_offset spread_max_distance spread_group_interval
geophones_per_group geophone_spacing geophone_frequency geophone_manufacturer geophone_model
geophone_pattern geophone_length geophone_width
traces_sorted_by_record traces_sorted_by_cdp traces_sorted_by_other
amplitude_recovery_none amplitude_recovery_spherical_div amplitude_recovery_agc amplitude_recovery_other
map_projection zone_id coordinate_units
processing1 processing2
unassigned1 unassigned2 unassigned3 unassigned4 unassigned5 unassigned6 unassigned7 unassigned8 unassigned9
unassigned10 unassigned11 unassigned12 unassigned13 unassigned14 unassigned15 unassigned16 unassigned17
end_marker
""".split()


def lines():
    out = []
    for line in TEMPLATE.splitlines():
        if len(line) != 80:
            # The unassigned cards extend to the end of the line
            line = line[:-1].ljust(79) + '}'
        out.append(line)
    return out


def placeholders():
    """(name, start, stop) positions in the concatenated lines."""
    text = ''.join(lines())
    out = []
    start = None
    for i, c in enumerate(text):
        if c == '{':
            start = i
        elif c == '}':
            out.append((start, i + 1))
    assert len(out) == len(NAMES) and len(text) == 3200
    return [(name, a, b) for name, (a, b) in zip(NAMES, out)]


def fill(values):
    """The forty lines with values as text; others blank."""
    text = list(''.join(lines()))
    for name, a, b in placeholders():
        v = str(values.get(name, ''))
        text[a:b] = list(v[:b - a]) + [' '] * (b - a - len(v[:b - a]))
    text = ''.join(text)
    return [text[i:i + 80] for i in range(0, 3200, 80)]
