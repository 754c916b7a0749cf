"""In-memory SQL servers (PostgreSQL, MySQL, SQL Server, Oracle flavours) used as observed environment."""
