"""Abstract interpreter specialised to the Python subset and library surface of pyiso8583."""
