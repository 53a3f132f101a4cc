"""Harness of each property."""
CHECKS = {
    'C01': dict(src='c01_store.cpp', quick_scale=6),
    'C02': dict(src='c02_iter.cpp', quick_scale=6),
    'C03': dict(src='c03_blocks.cpp', quick_scale=4),
    'C04': dict(src='c04_copy.cpp', quick_scale=2),
    'C05': dict(src='c05_mapping.cpp', quick_scale=12),
    'C06': dict(src='c06_time.cpp', quick_scale=15),
    'C07': dict(src='c07_linear.cpp', quick_scale=15),
    'C08': dict(src='c08_cubic.cpp', quick_scale=20),
    'C09': dict(src='c09_mac.cpp', quick_scale=20),
    'C10': dict(src='c10_resample.cpp', quick_scale=8),
    'C11': dict(src='c11_mip.cpp', quick_scale=3),
    'C12': dict(src='c12_miplookup.cpp', quick_scale=12),
    'C13': dict(src='c13_ogawa.cpp', quick_scale=6),
    'C14': dict(src='c14_hdf5.cpp', quick_scale=8),
    'C15': dict(src='c15_meta.cpp', quick_scale=10),
    'C16': dict(src='c16_files.cpp', quick_scale=10),
    'C17': dict(src='c17_dynamic.cpp', quick_scale=5),
    'C18': dict(src='c18_threads.cpp', quick_scale=4),
    'C19': dict(src='c19_iothreads.cpp', quick_scale=8),
    'C20': dict(src='c20_damage.cpp', quick_scale=0.6),
    'C21': dict(src='c21_faults.cpp'),
    'C22': dict(src='c22_tools.cpp', more=['c22_mip.cpp'], tools=['f3dmerge', 'f3dmakemip', 'f3dsample', 'f3dinfo'], quick_scale=4),
    'C23': dict(src='c23_names.cpp', quick_scale=10),
    'C24': dict(src='c24_group.cpp', more=['c24_vector.cpp', 'c24_range.cpp', 'c24_vrange.cpp'], quick_scale=25),
    'C25': dict(src='c25_types.cpp', quick_scale=10),
}
