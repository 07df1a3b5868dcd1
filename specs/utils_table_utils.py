"""Reference definitions for seyfert.utils.table_utils."""
from pathlib import Path
import logging

logger = logging.getLogger(__name__)


@of("seyfert.utils.table_utils.write_dataframe_table", ret=False)
def r_write_dataframe_table(df, outfile, overwrite=False, **kwargs):
    outfile = Path(outfile)
    fmt = outfile.suffix
    if not outfile.exists() or (outfile.exists() and overwrite):
        if fmt == '.csv':
            df.to_csv(outfile, **kwargs)
        elif fmt == '.xlsx':
            df.to_excel(outfile, **kwargs)
        else:
            raise Exception()
    else:
        pass

