"""Reference definitions for seyfert.utils.formatters."""
from seyfert.utils.formatters import time_format
import datetime



@of("seyfert.utils.formatters.str_to_bool")
def r_str_to_bool(s):
    if s.lower() not in ['true', 'false']:
        raise ValueError()
    return {'true': True, 'false': False}[s.lower()]


@of("seyfert.utils.formatters.str_to_float")
def r_str_to_float(string):
    try:
        return float(string)
    except ValueError:
        return eval(string)


@of("seyfert.utils.formatters.time_format")
def r_time_format(dt):
    hours, remainder = divmod(int(dt), 3600)
    mins, secs = divmod(remainder, 60)
    millisecs = round(1000 * (dt - int(dt)), 3)
    return (hours, mins, secs, millisecs)


@of("seyfert.utils.formatters.string_time_format")
def r_string_time_format(dt):
    h, m, s, ms = time_format(dt)
    string_formatted_time = f'{h}h {m}m {s}s {ms}ms'
    return string_formatted_time


@of("seyfert.utils.formatters.datetime_str_format")
def r_datetime_str_format(t, hour_sep='-'):
    return t.strftime(f'%Y-%m-%dT%H{hour_sep}%M{hour_sep}%S')


@of("seyfert.utils.formatters.date_from_str")
def r_date_from_str(date_string, hour_sep='-'):
    return datetime.datetime.strptime(date_string, f'%Y-%m-%dT%H{hour_sep}%M{hour_sep}%S')

