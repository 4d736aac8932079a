"""Stand-in for the package transaction."""
_jars = []


def commit():
    for jar in list(_jars):
        jar.commit()


def abort():
    for jar in list(_jars):
        jar.abort()
