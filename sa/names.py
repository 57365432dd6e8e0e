"""Public attributes of the classes of numpy, pandas and xarray in the releases in use.

An attribute in a table that has no model is a gap of the analysis; one that is not is an AttributeError."""

NAMES = {
    'numpy.ndarray': '''
        T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy ctypes cumprod cumsum
        data device diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemsize mT max mean min nbytes ndim nonzero
        partition prod put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum
        swapaxes take to_device tobytes tofile tolist trace transpose var view''',
    'numpy.generic': '''
        T all any argmax argmin argsort as_integer_ratio astype base byteswap choose clip compress conj conjugate copy cumprod cumsum data
        device diagonal dtype dump dumps fill flags flat flatten fromhex getfield hex imag is_integer item itemsize max mean min nbytes ndim
        nonzero prod put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum
        swapaxes take to_device tobytes tofile tolist trace transpose var view''',
    'DataArray': '''
        T all any argmax argmin argsort as_numpy assign_attrs assign_coords astype attrs bfill broadcast_equals broadcast_like chunk chunks
        chunksizes clip close coarsen combine_first compute conj conjugate convert_calendar coords copy count cumprod cumsum cumulative
        cumulative_integrate curvefit data diff differentiate dims dot drop drop_attrs drop_duplicates drop_encoding drop_indexes drop_isel
        drop_sel drop_vars dropna dt dtype encoding equals expand_dims ffill fillna from_dict from_iris from_series get_axis_num get_index
        groupby groupby_bins head identical idxmax idxmin imag indexes integrate interp interp_calendar interp_like interpolate_na isel isin
        isnull item load load_async loc map_blocks max mean median min name nbytes ndim notnull pad persist pipe plot polyfit prod quantile
        query rank real reduce reindex reindex_like rename reorder_levels resample reset_coords reset_encoding reset_index roll rolling
        rolling_exp round searchsorted sel set_close set_index set_xindex shape shift size sizes sortby squeeze stack std str sum swap_dims
        tail thin to_dask_dataframe to_dataframe to_dataset to_dict to_index to_iris to_masked_array to_netcdf to_numpy to_pandas to_series
        to_unstacked_dataset to_zarr transpose unify_chunks unstack values var variable weighted where xindexes''',
    'Dataset': '''
        all any apply argmax argmin argsort as_numpy assign assign_attrs assign_coords astype attrs bfill broadcast_equals broadcast_like
        chunk chunks chunksizes clip close coarsen combine_first compute conj conjugate convert_calendar coords copy count cumprod cumsum
        cumulative cumulative_integrate curvefit data_vars diff differentiate dims drop drop_attrs drop_dims drop_duplicates drop_encoding
        drop_indexes drop_isel drop_sel drop_vars dropna dtypes dump_to_store encoding equals eval expand_dims ffill fillna filter_by_attrs
        from_dataframe from_dict get get_index groupby groupby_bins head identical idxmax idxmin imag indexes info integrate interp
        interp_calendar interp_like interpolate_na isel isin isnull items keys load load_async load_store loc map map_blocks max mean median
        merge min nbytes notnull pad persist pipe plot polyfit prod quantile query rank real reduce reindex reindex_like rename rename_dims
        rename_vars reorder_levels resample reset_coords reset_encoding reset_index roll rolling rolling_exp round sel set_close set_coords
        set_index set_xindex shift sizes sortby squeeze stack std sum swap_dims tail thin to_array to_dask_dataframe to_dataarray
        to_dataframe to_dict to_netcdf to_pandas to_stacked_array to_zarr transpose unify_chunks unstack update values var variables
        weighted where xindexes''',
    'DataArrayCoordinates': '''
        assign copy dims drop_dims drop_vars dtypes equals from_pandas_multiindex from_xindex get identical indexes items keys merge
        rename_dims rename_vars sizes to_dataset to_index update values variables xindexes''',
    'DatetimeAccessor': '''
        calendar ceil date day dayofweek dayofyear days_in_month days_in_year daysinmonth decimal_year floor hour is_leap_year is_month_end
        is_month_start is_quarter_end is_quarter_start is_year_end is_year_start isocalendar microsecond minute month nanosecond quarter
        round season second strftime time week weekday weekofyear year''',
    'DatetimeIndex': '''
        T all any append argmax argmin argsort array as_unit asi8 asof asof_locs astype ceil copy date day day_name day_of_week day_of_year
        dayofweek dayofyear days_in_month daysinmonth delete diff difference drop drop_duplicates droplevel dropna dtype duplicated empty
        equals factorize fillna floor freq freqstr get_indexer get_indexer_for get_indexer_non_unique get_level_values get_loc
        get_slice_bound groupby has_duplicates hasnans hour identical indexer_at_time indexer_between_time infer_objects inferred_freq
        inferred_type insert intersection is_ is_leap_year is_monotonic_decreasing is_monotonic_increasing is_month_end is_month_start
        is_normalized is_quarter_end is_quarter_start is_unique is_year_end is_year_start isin isna isnull isocalendar item join map max
        mean memory_usage microsecond min minute month month_name name names nanosecond nbytes ndim nlevels normalize notna notnull nunique
        putmask quarter ravel reindex rename repeat resolution round searchsorted second set_names shape shift size slice_indexer slice_locs
        snap sort_values sortlevel std str strftime symmetric_difference take time timetz to_flat_index to_frame to_julian_date to_list
        to_numpy to_period to_pydatetime to_series tolist transpose tz tz_convert tz_localize tzinfo union unique unit value_counts values
        view weekday where year''',
    'Timestamp': '''
        as_unit asm8 astimezone ceil combine ctime date day day_name day_of_week day_of_year dayofweek dayofyear days_in_month daysinmonth
        dst floor fold fromisocalendar fromisoformat fromordinal fromtimestamp hour is_leap_year is_month_end is_month_start is_quarter_end
        is_quarter_start is_year_end is_year_start isocalendar isoformat isoweekday max microsecond min minute month month_name nanosecond
        normalize now quarter replace resolution round second strftime strptime time timestamp timetuple timetz to_datetime64 to_julian_date
        to_numpy to_period to_pydatetime today toordinal tz tz_convert tz_localize tzinfo tzname unit utcfromtimestamp utcnow utcoffset
        utctimetuple value week weekday weekofyear year''',
    'datetime': '''
        astimezone combine ctime date day dst fold fromisocalendar fromisoformat fromordinal fromtimestamp hour isocalendar isoformat
        isoweekday max microsecond min minute month now replace resolution second strftime strptime time timestamp timetuple timetz today
        toordinal tzinfo tzname utcfromtimestamp utcnow utcoffset utctimetuple weekday year''',
    'date': '''
        ctime day fromisocalendar fromisoformat fromordinal fromtimestamp isocalendar isoformat isoweekday max min month replace resolution
        strftime timetuple today toordinal weekday year''',
    'TimedeltaIndex': '''
        T all any append argmax argmin argsort array as_unit asi8 asof asof_locs astype ceil components copy days delete diff difference
        drop drop_duplicates droplevel dropna dtype duplicated empty equals factorize fillna floor freq freqstr get_indexer get_indexer_for
        get_indexer_non_unique get_level_values get_loc get_slice_bound groupby has_duplicates hasnans identical infer_objects inferred_freq
        inferred_type insert intersection is_ is_monotonic_decreasing is_monotonic_increasing is_unique isin isna isnull item join map max
        mean median memory_usage microseconds min name names nanoseconds nbytes ndim nlevels notna notnull nunique putmask ravel reindex
        rename repeat resolution round searchsorted seconds set_names shape shift size slice_indexer slice_locs sort_values sortlevel std
        str sum symmetric_difference take to_flat_index to_frame to_list to_numpy to_pytimedelta to_series tolist total_seconds transpose
        union unique unit value_counts values view where''',
    'Timedelta': '''
        as_unit asm8 ceil components days floor isoformat max microseconds min nanoseconds resolution resolution_string round seconds
        to_numpy to_pytimedelta to_timedelta64 total_seconds unit value view''',
    'timedelta': '''
        days max microseconds min resolution seconds total_seconds''',
    'DataFrame': '''
        T abs add add_prefix add_suffix agg aggregate align all any apply asfreq asof assign astype at at_time attrs axes between_time bfill
        boxplot clip columns combine combine_first compare convert_dtypes copy corr corrwith count cov cummax cummin cumprod cumsum describe
        diff div divide dot drop drop_duplicates droplevel dropna dtypes duplicated empty eq equals eval ewm expanding explode ffill fillna
        filter first_valid_index flags floordiv from_arrow from_dict from_records ge get groupby gt head hist iat idxmax idxmin iloc index
        infer_objects info insert interpolate isetitem isin isna isnull items iterrows itertuples join keys kurt kurtosis last_valid_index
        le loc lt map mask max mean median melt memory_usage merge min mod mode mul multiply ndim ne nlargest notna notnull nsmallest
        nunique pct_change pipe pivot pivot_table plot pop pow prod product quantile query radd rank rdiv reindex reindex_like rename
        rename_axis reorder_levels replace resample reset_index rfloordiv rmod rmul rolling round rpow rsub rtruediv sample select_dtypes
        sem set_axis set_flags set_index shape shift size skew sort_index sort_values sparse squeeze stack std style sub subtract sum
        swaplevel tail take to_clipboard to_csv to_dict to_excel to_feather to_hdf to_html to_iceberg to_json to_latex to_markdown to_numpy
        to_orc to_parquet to_period to_pickle to_records to_sql to_stata to_string to_timestamp to_xarray to_xml transform transpose truediv
        truncate tz_convert tz_localize unstack update value_counts values var where xs''',
    'Series': '''
        T abs add add_prefix add_suffix agg aggregate align all any apply argmax argmin argsort array asfreq asof astype at at_time attrs
        autocorr axes between between_time bfill case_when cat clip combine combine_first compare convert_dtypes copy corr count cov cummax
        cummin cumprod cumsum describe diff div divide divmod dot drop drop_duplicates droplevel dropna dt dtype dtypes duplicated empty eq
        equals ewm expanding explode factorize ffill fillna filter first_valid_index flags floordiv from_arrow ge get groupby gt hasnans
        head hist iat idxmax idxmin iloc index infer_objects info interpolate is_monotonic_decreasing is_monotonic_increasing is_unique isin
        isna isnull item items keys kurt kurtosis last_valid_index le list loc lt map mask max mean median memory_usage min mod mode mul
        multiply name nbytes ndim ne nlargest notna notnull nsmallest nunique pct_change pipe plot pop pow prod product quantile radd rank
        rdiv rdivmod reindex reindex_like rename rename_axis reorder_levels repeat replace resample reset_index rfloordiv rmod rmul rolling
        round rpow rsub rtruediv sample searchsorted sem set_axis set_flags shape shift size skew sort_index sort_values sparse squeeze std
        str struct sub subtract sum swaplevel tail take to_clipboard to_csv to_dict to_excel to_frame to_hdf to_json to_latex to_list
        to_markdown to_numpy to_period to_pickle to_sql to_string to_timestamp to_xarray tolist transform transpose truediv truncate
        tz_convert tz_localize unique unstack update value_counts values var where xs''',
    'Index': '''
        T all any append argmax argmin argsort array asof asof_locs astype copy delete diff difference drop drop_duplicates droplevel dropna
        dtype duplicated empty equals factorize fillna get_indexer get_indexer_for get_indexer_non_unique get_level_values get_loc
        get_slice_bound groupby has_duplicates hasnans identical infer_objects inferred_type insert intersection is_ is_monotonic_decreasing
        is_monotonic_increasing is_unique isin isna isnull item join map max memory_usage min name names nbytes ndim nlevels notna notnull
        nunique putmask ravel reindex rename repeat round searchsorted set_names shape shift size slice_indexer slice_locs sort_values
        sortlevel str symmetric_difference take to_flat_index to_frame to_list to_numpy to_series tolist transpose union unique value_counts
        values view where''',
}
NAMES = {k: frozenset(v.split()) for k, v in NAMES.items()}
