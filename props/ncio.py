"""Stand-ins for the NetCDF file library: data sets are kept in memory, so that
they may hold symbolic values.  Used alike in symbolic runs and replays."""
import xarray as xr


class Store:
    """with Store({name: dataset}) as st: ...   st.written = [(path, mode, dataset)]"""

    def __init__(self, files=None, always=None):
        self.always = always        # the data set behind every name
        self.files = dict(files or {})
        self.written = []
        self.opened = []

    def __enter__(self):
        self.saved = xr.open_dataset, xr.Dataset.to_netcdf
        store = self

        def open_dataset(filename_or_obj, *args, **kw):
            if store.always is not None:
                return store.always.copy()
            store.opened.append(str(filename_or_obj))
            if str(filename_or_obj) not in store.files:
                raise FileNotFoundError(str(filename_or_obj))
            return store.files[str(filename_or_obj)].copy()

        def to_netcdf(ds, path=None, mode="w", *args, **kw):
            store.written.append((str(path), mode, ds))
            if mode == "a" and str(path) in store.files:
                old = store.files[str(path)]
                for n in ds.data_vars:
                    old = old.assign({n: ds[n]})
                store.files[str(path)] = old
            else:
                store.files[str(path)] = ds
        xr.open_dataset, xr.Dataset.to_netcdf = open_dataset, to_netcdf
        return self

    def __exit__(self, *a):
        xr.open_dataset, xr.Dataset.to_netcdf = self.saved
        return False
