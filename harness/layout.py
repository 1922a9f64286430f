"""Header layouts of SEG-Y revision 1 (and 0), transcribed as plain tables, independent of segpy.

Each row: name, one-based offset, struct code, default, domain.  A domain is a (min, max) range or a
list of permitted values.  Checked against the tables of the SEG-Y rev 1 standard (2002).
"""

BINARY = [
    ('job_id_num', 3201, 'i', 0, (-2147483648, 2147483647)),
    ('line_num', 3205, 'i', 0, (0, 2147483647)),
    ('reel_num', 3209, 'i', 0, (-2147483648, 2147483647)),
    ('data_traces_per_ensemble', 3213, 'h', 0, (0, 32767)),
    ('auxiliary_traces_per_ensemble', 3215, 'h', 0, (0, 32767)),
    ('sample_interval', 3217, 'h', 0, (0, 32767)),
    ('original_field_sample_interval', 3219, 'h', 0, (0, 32767)),
    ('num_samples', 3221, 'h', 0, (0, 32767)),
    ('original_field_num_samples', 3223, 'h', 0, (0, 32767)),
    ('data_sample_format', 3225, 'h', 5, [1, 2, 3, 5, 8]),
    ('ensemble_fold', 3227, 'h', 0, (0, 32767)),
    ('trace_sorting', 3229, 'h', 0, [-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9]),
    ('vertical_sum_code', 3231, 'h', 0, (0, 32767)),
    ('sweep_frequency_at_start', 3233, 'h', 0, (0, 32767)),
    ('sweep_frequency_at_end', 3235, 'h', 0, (0, 32767)),
    ('sweep_length', 3237, 'h', 0, (0, 32767)),
    ('sweep_type', 3239, 'h', 0, [0, 1, 2, 3, 4]),
    ('sweep_trace_number', 3241, 'h', 0, (-32768, 32767)),
    ('sweep_trace_taper_length_at_start', 3243, 'h', 0, (0, 32767)),
    ('sweep_trace_taper_length_at_end', 3245, 'h', 0, (0, 32767)),
    ('taper_type', 3247, 'h', 0, [0, 1, 2, 3]),
    ('correlated_data_traces', 3249, 'h', 0, [0, 1, 2]),
    ('binary_gain_recovered', 3251, 'h', 0, [0, 1, 2]),
    ('amplitude_recovery_method', 3253, 'h', 0, [0, 1, 2, 3, 4]),
    ('measurement_system', 3255, 'h', 0, [0, 1, 2]),
    ('impulse_signal_polarity', 3257, 'h', 0, [0, 1, 2]),
    ('vibratory_polarity_code', 3259, 'h', 0, [0, 1, 2, 3, 4, 5, 6, 7, 8]),
    ('format_revision_num', 3501, 'h', 256, [0, 256]),
    ('fixed_length_trace_flag', 3503, 'h', 0, [0, 1]),
    ('num_extended_textual_headers', 3505, 'h', 0, (-1, 32767)),
]

TRACE_REV1 = [
    ('line_sequence_num', 1, 'i', 0, (-2147483648, 2147483647)),
    ('file_sequence_num', 5, 'i', 0, (-2147483648, 2147483647)),
    ('field_record_num', 9, 'i', 0, (-2147483648, 2147483647)),
    ('trace_num', 13, 'i', 0, (-2147483648, 2147483647)),
    ('energy_source_point_num', 17, 'i', 0, (-2147483648, 2147483647)),
    ('ensemble_num', 21, 'i', 0, (-2147483648, 2147483647)),
    ('ensemble_trace_num', 25, 'i', 0, (0, 2147483647)),
    ('trace_identification_code', 29, 'h', 0, (-32768, 32767)),
    ('num_vertically_summed_traces', 31, 'h', 1, (0, 32767)),
    ('num_horizontally_stacked_traces', 33, 'h', 1, (0, 32767)),
    ('data_use', 35, 'h', 1, [1, 2]),
    ('doc_nreceiver_offset', 37, 'i', 0, (-2147483648, 2147483647)),
    ('receiver_group_elevation', 41, 'i', 0, (-2147483648, 2147483647)),
    ('surface_elevation_at_source', 45, 'i', 0, (-2147483648, 2147483647)),
    ('source_depth_below_surface', 49, 'i', 0, (0, 2147483647)),
    ('datum_elevation_at_receiver_group', 53, 'i', 0, (-2147483648, 2147483647)),
    ('datum_elevation_at_source', 57, 'i', 0, (-2147483648, 2147483647)),
    ('water_depth_at_source', 61, 'i', 0, (-2147483648, 2147483647)),
    ('water_depth_at_group', 65, 'i', 0, (-2147483648, 2147483647)),
    ('elevation_scalar', 69, 'h', 1, [-10000, -1000, -100, -10, -1, 0, 1, 10, 100, 1000, 10000]),
    ('xy_scalar', 71, 'h', 1, [-10000, -1000, -100, -10, -1, 0, 1, 10, 100, 1000, 10000]),
    ('source_x', 73, 'i', 0, (-2147483648, 2147483647)),
    ('source_y', 77, 'i', 0, (-2147483648, 2147483647)),
    ('group_x', 81, 'i', 0, (-2147483648, 2147483647)),
    ('group_y', 85, 'i', 0, (-2147483648, 2147483647)),
    ('coordinate_units', 89, 'h', 0, [0, 1, 2, 3, 4]),
    ('weathering_velocity', 91, 'h', 0, (0, 32767)),
    ('subweathering_velocity', 93, 'h', 0, (0, 32767)),
    ('uphole_time_at_source', 95, 'h', 0, (0, 32767)),
    ('uphole_time_at_group', 97, 'h', 0, (0, 32767)),
    ('source_static_correction', 99, 'h', 0, (-32768, 32767)),
    ('group_static_correction', 101, 'h', 0, (-32768, 32767)),
    ('total_static', 103, 'h', 0, (-32768, 32767)),
    ('lag_time_a', 105, 'h', 0, (-32768, 32767)),
    ('lag_time_b', 107, 'h', 0, (-32768, 32767)),
    ('delay_recording_time', 109, 'h', 0, (-32768, 32767)),
    ('mute_start_time', 111, 'h', 0, (0, 32767)),
    ('mute_end_time', 113, 'h', 0, (0, 32767)),
    ('num_samples', 115, 'h', 0, (0, 32767)),
    ('sample_interval', 117, 'h', 0, (-32768, 32767)),
    ('gain_type_of_field_instruments', 119, 'h', 0, (0, 32767)),
    ('instrument_gain_constant', 121, 'h', 0, (-32768, 32767)),
    ('instrument_initial_gain', 123, 'h', 0, (-32768, 32767)),
    ('correlated', 125, 'h', 1, [1, 2]),
    ('sweep_frequency_at_start', 127, 'h', 0, (0, 32767)),
    ('sweep_frequency_at_end', 129, 'h', 0, (0, 32767)),
    ('sweep_length', 131, 'h', 0, (0, 32767)),
    ('sweep_type', 133, 'h', 0, [0, 1, 2, 3, 4]),
    ('sweep_trace_taper_length_at_start', 135, 'h', 0, (0, 32767)),
    ('sweep_trace_taper_length_at_end', 137, 'h', 0, (0, 32767)),
    ('taper_type', 139, 'h', 0, [0, 1, 2, 3]),
    ('alias_filter_frequency', 141, 'h', 0, (0, 32767)),
    ('alias_filter_slope', 143, 'h', 0, (-32768, 32767)),
    ('notch_filter_frequency', 145, 'h', 0, (0, 32767)),
    ('notch_filter_slope', 147, 'h', 0, (-32768, 32767)),
    ('low_cut_frequency', 149, 'h', 0, (0, 32767)),
    ('high_cut_frequency', 151, 'h', 0, (0, 32767)),
    ('low_cut_slope', 153, 'h', 0, (-32768, 32767)),
    ('high_cut_slope', 155, 'h', 0, (-32768, 32767)),
    ('year_recorded', 157, 'h', 0, (-32768, 32767)),
    ('day_of_year', 159, 'h', 0, (0, 366)),
    ('hour_of_day', 161, 'h', 0, (0, 24)),
    ('minute_of_hour', 163, 'h', 0, (0, 60)),
    ('second_of_minute', 165, 'h', 0, (0, 60)),
    ('time_basis_code', 167, 'h', 0, [0, 1, 2, 3, 4]),
    ('trace_weighting_factor', 169, 'h', 0, (0, 32767)),
    ('geophone_group_num_roll_switch_position_one', 171, 'h', 0, (-32768, 32767)),
    ('geophone_group_num_first_trace_original_field', 173, 'h', 0, (-32768, 32767)),
    ('geophone_group_num_last_trace_original_field', 175, 'h', 0, (-32768, 32767)),
    ('gap_size', 177, 'h', 0, (0, 32767)),
    ('over_travel', 179, 'h', 0, [0, 1, 2]),
    ('cdp_x', 181, 'i', 0, (-2147483648, 2147483647)),
    ('cdp_y', 185, 'i', 0, (-2147483648, 2147483647)),
    ('inline_number', 189, 'i', 0, (-2147483648, 2147483647)),
    ('crossline_number', 193, 'i', 0, (-2147483648, 2147483647)),
    ('shotpoint_number', 197, 'i', 0, (-2147483648, 2147483647)),
    ('shotpoint_scalar', 201, 'h', 0, (-32768, 32767)),
    ('trace_unit', 203, 'h', 0, [-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9]),
    ('transduction_constant_mantissa', 205, 'i', 0, (-2147483648, 2147483647)),
    ('transduction_constant_exponent', 209, 'h', 0, (-32768, 32767)),
    ('transduction_units', 211, 'h', 0, [-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9]),
    ('device_trace_identifier', 213, 'h', 0, (-32768, 32767)),
    ('time_scalar', 215, 'h', 0, [-10000, -1000, -100, -10, -1, 0, 1, 10, 100, 1000, 10000]),
    ('source_type', 217, 'h', 0, (-32768, 9)),
    ('source_energy_direction', 219, 'i', 0, (-2147483648, 2147483647)),
    ('source_measurement_mantissa', 225, 'i', 0, (-2147483648, 2147483647)),
    ('source_measurement_exponent', 229, 'h', 0, (-32768, 32767)),
    ('source_measurement_unit', 231, 'h', 0, [-1, 0, 1, 2, 3, 4, 5, 6]),
]

TRACE_REV0 = [row for row in TRACE_REV1 if row[1] <= 179]
